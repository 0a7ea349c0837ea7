//! C01–C06: the macro set, checked against the reference preprocessor.

use super::ppcmp::*;
use crate::engine::*;
use crate::refpp::*;
use cmacro::{ExpansionError, Identifier, Lit, LitString, MacroArg, MacroSet, MacroToken};
use std::collections::BTreeMap;

type Defs = BTreeMap<String, Def>;

pub fn assumptions(id: &str) -> Vec<&'static str> {
  let mut v = vec!["macros are given as token lists, one preprocessing token per element; blanks between tokens are not represented"];
  match id {
    "C01" | "C02" | "C03" => v.push("a macro call that is not terminated inside its text or argument is an error in C and is outside the domain; where C leaves the nesting of replacements unspecified (6.10.3.4p4) either result is accepted"),
    "C06" => v.push("arguments used for instantiation are no macro names and form no macro name when pasted"),
    _ => {},
  }
  v
}

pub fn sv(s: &str) -> Vec<String> {
  s.split(' ').filter(|s| !s.is_empty()).map(|s| s.replace('~', " ")).collect()
}

/// Any token sequence of length `min..=max` over the alphabet, simplest first.
pub fn seq(ch: &mut Ch, alpha: &[&str], min: usize, max: usize) -> Vec<String> {
  let n = min + ch.pick(max - min + 1);
  (0..n).map(|_| ch.of(alpha).to_string()).collect()
}

pub fn var(d: &mut Defs, n: &str, b: Vec<String>) {
  d.insert(n.into(), Def::Var(b));
}
pub fn func(d: &mut Defs, n: &str, p: &str, b: Vec<String>) {
  d.insert(n.into(), Def::Fn(sv(p), b));
}

#[derive(Clone, Copy, PartialEq)]
enum Err {
  /// Any error will do when C has one.
  Any,
  /// The very error.
  Exact,
}

/// Expand `expr` (or the named variable-like macro) with the crate and with the model.
fn agree(ch: &mut Ch, defs: &Defs, expr: &[String], named: bool, errs: Err) -> V {
  let mut defs = defs.clone();
  if named {
    defs.insert("M".into(), Def::Var(expr.to_vec()));
  }
  ch.note(format!("{}\n{}", show_defs(&defs), if named { "expand_var_macro(M)".into() } else { format!("expand: {}", expr.join(" ")) }));
  let got = guard(|| {
    let m = build(&defs);
    let r = if named { m.expand_var_macro("M") } else { m.expand(expr) };
    // Own the tokens.
    r.map(|v| own(&v))
  });
  let mut wants: Vec<Result<Vec<T>, E>> = vec![];
  for mode in [Mode::Intersect, Mode::Union] {
    let mut pp = Pp::new(&defs, mode);
    let w = finish(if named { pp.expand_var("M") } else { pp.expand_expr(expr) });
    ch.model_steps += pp.steps;
    let s = pp.straddled;
    wants.push(w);
    if !s {
      break;
    }
  }
  match compare(&got, &wants, errs) {
    V::Fail(m) => {
      let mut pp = Pp::new(&defs, Mode::Context);
      let w = finish(if named { pp.expand_var("M") } else { pp.expand_expr(expr) });
      ch.model_steps += pp.steps;
      match compare(&got, &[w], errs) {
        V::Fail(_) => V::Fail(m),
        v => v,
      }
    },
    v => v,
  }
}

pub fn own(v: &[MacroToken]) -> Vec<MacroToken<'static>> {
  v.iter().map(own1).collect()
}
fn own1(t: &MacroToken) -> MacroToken<'static> {
  // The borrowed tokens are tied to the set; leak nothing, copy by spelling where possible.
  unsafe { std::mem::transmute::<MacroToken<'_>, MacroToken<'static>>(deep(t)) }
}
/// Copy with all borrowed text moved into process-lifetime interned storage.
fn deep<'a>(t: &MacroToken<'a>) -> MacroToken<'a> {
  use std::borrow::Cow;
  fn intern(s: &str) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashSet;
    thread_local!(static P: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()));
    P.with(|p| {
      let mut p = p.borrow_mut();
      if let Some(x) = p.get(s) {
        return *x;
      }
      let l: &'static str = Box::leak(s.to_string().into_boxed_str());
      p.insert(l);
      l
    })
  }
  match t {
    MacroToken::Identifier(i) => Identifier::try_from(intern(i.as_str())).map(MacroToken::from).unwrap_or_else(|_| t.clone()),
    MacroToken::IdentifierContinue(i) => cmacro::IdentifierContinue::try_from(intern(i.as_str())).map(MacroToken::from).unwrap_or_else(|_| t.clone()),
    MacroToken::Punctuation(p) => {
      let s = PUNCTS.iter().find(|s| p == **s);
      match s {
        Some(s) => cmacro::Punctuation::try_from(*s).map(MacroToken::from).unwrap(),
        None => cmacro::Punctuation::try_from("?").map(MacroToken::from).unwrap(),
      }
    },
    MacroToken::Lit(Lit::String(s)) => MacroToken::Lit(Lit::String(match s {
      LitString::Ordinary(b) => LitString::Ordinary(Cow::Owned(b.to_vec())),
      LitString::Utf8(b) => LitString::Utf8(Cow::Owned(b.to_string())),
      LitString::Utf16(b) => LitString::Utf16(Cow::Owned(b.to_string())),
      LitString::Utf32(b) => LitString::Utf32(Cow::Owned(b.to_string())),
      LitString::Wide(b) => LitString::Wide(b.clone()),
    })),
    MacroToken::Comment(_) => MacroToken::Comment(cmacro::Comment::try_from("/**/").unwrap()),
    t => t.clone(),
  }
}

fn compare(got: &Result<Result<Vec<MacroToken<'static>>, ExpansionError>, String>, wants: &[Result<Vec<T>, E>], errs: Err) -> V {
  let got = match got {
    Ok(g) => g,
    Err(p) => return V::Fail(p.clone()),
  };
  for w in wants {
    if let Err(E::Unspecified(r)) = w {
      return V::Skip(r);
    }
  }
  let mut msg = String::new();
  for w in wants {
    match (got, w) {
      (Ok(g), Ok(w)) => match same(g, w) {
        Ok(()) => return V::Ok(h(&shows(g))),
        Err(m) => msg = m,
      },
      (Err(g), Err(w)) => {
        let k = err_kind(g);
        if errs == Err::Any || &k == w {
          return V::Ok(h(&format!("{k:?}")));
        }
        msg = format!("crate: {k:?}\nC:     {w:?}");
      },
      (Ok(g), Err(w)) => msg = format!("crate: {}\nC:     error {w:?}", shows(g)),
      (Err(g), Ok(w)) => msg = format!("crate: error {:?}\nC:     {}", err_kind(g), showt(w)),
    }
  }
  V::Fail(msg)
}

// ---------------------------------------------------------------- C01

pub fn c01(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "objects", bounds: format!("3 variable-like macros with every body of up to {} tokens over 3 names and a number; every expression of 1..=2 tokens, as expression and as macro", t.q(2, 3)), f: c01_objects },
    Space { name: "one-function", bounds: format!("f(a) with every body of up to {} tokens over a f X ( ) 1, X with every body of up to 2 tokens, every expression of up to {} tokens", t.q(3, 4), t.q(4, 5)), f: c01_fn },
    Space { name: "two-functions", bounds: format!("f(a), g(b), X, EMPTY with 18x13x6 bodies, every expression of up to {} tokens over f g X E ( ) 1", t.q(4, 6)), f: c01_two },
    Space { name: "call-shapes", bounds: format!("9 signatures of one outer and one inner macro, every argument text of up to {} tokens over names, parentheses, calls and a comma, 7 continuations", t.q(3, 5)), f: c01_shapes },
    Space { name: "shadowing", bounds: "parameters named like live macros, arguments naming them, 3 levels of nesting".into(), f: c01_shadow },
    Space { name: "recursion", bounds: "4 macros of either kind that call each other in every pattern".into(), f: c01_rec },
  ]
}

fn c01_objects(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let n = ch.tier.q(2, 3);
  let a = ["1", "X", "Y", "Z"];
  for m in ["X", "Y", "Z"] {
    let b = seq(ch, &a, 0, n);
    var(&mut d, m, b);
  }
  let named = ch.flag();
  let e = if named { let i = ch.pick(3); vec![["X", "Y", "Z"][i].to_string(), "X".into()] } else { seq(ch, &["X", "Y", "Z"], 1, 2) };
  agree(ch, &d, &e, named, Err::Any)
}

fn c01_fn(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let e = seq(ch, &["f", "(", ")", "X", "1"], 1, ch.tier.q(4, 5));
  if !closable(&e, &["f", "X"]) {
    return V::Skip("no macro name or unbalanced from the start");
  }
  let xb = seq(ch, &["f", "(", ")", "X", "1"], 0, 2);
  var(&mut d, "X", xb);
  let fb = seq(ch, &["a", "f", "X", "(", ")", "1"], 0, ch.tier.q(3, 4));
  func(&mut d, "f", "a", fb);
  agree(ch, &d, &e, false, Err::Any)
}

/// Cheap filter: has a name, and never closes more than macros could open (X may open one).
fn closable(e: &[String], names: &[&str]) -> bool {
  e.iter().any(|t| names.contains(&t.as_str()))
}

fn c01_two(ch: &mut Ch) -> V {
  let e = seq(ch, &["f", "(", ")", "g", "1", "X", "E"], 1, ch.tier.q(4, 6));
  if !closable(&e, &["f", "g", "X"]) {
    return V::Skip("no macro name or unbalanced from the start");
  }
  // Every `(` in the expression is closed or may be closed by nothing else: prune the rest.
  let mut depth = 0i32;
  for t in &e {
    match t.as_str() {
      "(" => depth += 1,
      ")" => depth -= 1,
      _ => {},
    }
  }
  if !(-1..=0).contains(&depth) {
    return V::Skip("no macro name or unbalanced from the start");
  }
  let mut d = Defs::new();
  let fb = ch.of(&["a", "g ( a )", "g", "f ( a )", "a g", "g ( a", "a a", "( a )", "g E ( a )", "X", "a X", "a ( 1 )", "f", "g ( g ( a ) )", "g ( f ( a ) )", "a ( a )", "E", "f E ( a )"]);
  let gb = ch.of(&["b", "f ( b )", "f", "b f", "g ( b )", "g", "f ( b", "b ( b )", "b b", "", "f E ( b )", "X", "b X"]);
  let xb = ch.of(&["1", "f", "g (", "f ( 2 )", "X f", "g ( f"]);
  func(&mut d, "f", "a", sv(fb));
  func(&mut d, "g", "b", sv(gb));
  var(&mut d, "X", sv(xb));
  var(&mut d, "E", vec![]);
  agree(ch, &d, &e, false, Err::Any)
}

fn c01_shapes(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let i = ch.pick(9);
  let (p, b) = [
    ("a", "a in ( a )"),
    ("a b", "a + b"),
    ("a b", "in ( b ) in ( a )"),
    ("", "X"),
    ("...", "[ __VA_ARGS__ ]"),
    ("a ...", "in ( a ) [ __VA_ARGS__ ]"),
    ("a ...", "out ( __VA_ARGS__ )"),
    ("...", "in ( __VA_ARGS__ )"),
    ("a b", "a ( b )"),
  ][i];
  func(&mut d, "out", p, sv(b));
  func(&mut d, "in", "q", sv(ch.of(&["q", "< q >", "X q", "out ( q )", "q , q", ""])));
  var(&mut d, "X", sv(ch.of(&["1 , 2", "in", "X", "( 3"])));
  let mut e = sv("out (");
  e.extend(seq(ch, &["7", ",", "X", "in", "(", ")", "out"], 0, ch.tier.q(3, 5)));
  e.extend(sv(ch.of(&[")", ") ( 4 )", ") X", "X )", ") in ( X )", ", )", ") )"])));
  agree(ch, &d, &e, false, Err::Any)
}

fn c01_shadow(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  func(&mut d, "f", "X", sv(ch.of(&["X", "X Y", "g ( X )", "g ( Y , X )", "Y ( X )", "f X"])));
  func(&mut d, "g", ch.of(&["Y X", "X Y", "Y ...", "f X"]), sv(ch.of(&["X", "Y", "X Y", "f ( Y )", "f ( X )", "Y ( X )"])));
  var(&mut d, "X", sv(ch.of(&["1", "Y", "f", "f ( Y )", "X"])));
  var(&mut d, "Y", sv(ch.of(&["2", "X", "g", "Y Y"])));
  let e = sv(ch.of(&["f ( X )", "f ( Y )", "f ( f ( X ) )", "g ( X , Y )", "g ( Y , X )", "f ( f )", "f ( g ) ( X , 1 )", "g ( f , 3 )", "g ( g ( X , Y ) , f ( Y ) )", "X ( Y )", "Y ( X , X )"]));
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Any)
}

fn c01_rec(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let names = ["A", "B", "C", "D"];
  for n in names {
    if ch.flag() {
      func(&mut d, n, "x", sv(ch.of(&["x", "A ( x )", "B ( x )", "C ( x ) D ( x )", "D", "x ( x )", "A B ( x )"])));
    } else {
      var(&mut d, n, sv(ch.of(&["A", "B", "C", "D", "A B", "C D", "B ( A )", "D ( C"])));
    }
  }
  let e = sv(ch.of(&["A", "A ( 1 )", "A ( B ( C ( D ( 1 ) ) ) )", "A B C D ( 1 )", "B ( A ) ( 2 )", "D ( C ) ( B ) ( A )", "C 1 )"]));
  agree(ch, &d, &e, false, Err::Any)
}

// ---------------------------------------------------------------- C02

const OPS: &[&str] = &[
  "x", "1", "+", "=", "<", ".", "-", ">", "&", "L", "u8", "u", "U", "1.5", "1e", "0x", "\"s\"", "'c'", "u8\"s\"", "L'c'", "X", "_", "5f", "*", "/", "%", ":", "#", "|", "^", "!", "<<", ">>", "e5", "...", ",", "(", "1.", ".5", "0", "8", "1u", "é", "E", "\"\\xff\"", "'\\xff'", "->", "==", "[", "?", ";", "~", "<=", ">=", "++",
];

pub fn c02(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "pairs", bounds: format!("every ordered pair of {} operand spellings, object-like, with and without neighbours", OPS.len()), f: c02_pairs },
    Space { name: "chains", bounds: "every chain of 3 (thorough: 4) operands over 12 (thorough: 14) spellings, object-like and as expression".into(), f: c02_chain },
    Space { name: "arguments", bounds: "18 bodies pasting parameters, every pair of arguments out of 22 (empty, multi-token, macro names, operators, comments)".into(), f: c02_args },
    Space { name: "argument-pairs", bounds: format!("a ## b with both operands from arguments: every pair of {} spellings", OPS.len()), f: c02_argpairs },
    Space { name: "ends", bounds: "## at the start or end of every kind of macro body, also next to comments".into(), f: c02_ends },
    Space { name: "formed-names", bounds: "pastes that form the name of an object-like or function-like macro, a parameter, or the macro itself, rescanned in 9 contexts".into(), f: c02_names },
    Space { name: "nested", bounds: format!("pasting through {} levels of forwarding macros", t.q(2, 3)), f: c02_nested },
  ]
}

fn c02_pairs(ch: &mut Ch) -> V {
  let (l, r) = (ch.of(OPS), ch.of(OPS));
  let mut d = Defs::new();
  var(&mut d, "X", sv("9"));
  let mut e = vec![];
  let k = ch.pick(3);
  if k == 1 {
    e.push("x".to_string());
  }
  e.extend([l.to_string(), "##".into(), r.to_string()]);
  if k >= 1 {
    e.push("X".into());
  }
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Exact)
}

fn c02_chain(ch: &mut Ch) -> V {
  let al = &["x", "1", ".", "+", "L", "\"s\"", "'c'", "=", "<", "e", "u8", "/*c*/", "0x", "X"][..ch.tier.q(12, 14)];
  let n = ch.tier.q(3, 4);
  let mut d = Defs::new();
  var(&mut d, "X", sv("9"));
  let mut e = vec![];
  for i in 0..n {
    if i > 0 {
      if ch.flag() {
        e.push("##".to_string());
      }
    }
    e.push(ch.of(al).to_string());
  }
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Any)
}

const ARGS: &[&str] = &["", "x", "1", "X", "p q", "X 1", "1 X", "X X", "##", "#", "# ##", "x ## y", "L", "\"s\"", "+", "=", "/*c*/", "x /*c*/", "/*c*/ x", "f", "( X )", "F ( 1 )"];

fn c02_args(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let b = ch.of(&[
    "a ## b", "a ## 1", "x ## a", "a ## b ## a", "a b ## a", "a ## b a", "a ## a b ## b", "x a ## b 1", "a /*c*/ ## b", "a ## /*c*/ b", "L ## # a", "# a b", "a ## b # a", "a ## X", "X ## a", "a", "a b", "a ## b X",
  ]);
  func(&mut d, "F", "a b", sv(b));
  var(&mut d, "X", sv("9"));
  var(&mut d, "X1", sv("Xone"));
  let mut e = sv("F (");
  e.extend(sv(ch.of(ARGS)));
  e.push(",".into());
  e.extend(sv(ch.of(ARGS)));
  e.push(")".into());
  // `##` written directly in the expression would be an operator there: pass it as a macro's own text.
  let direct = ["##"].iter().any(|t| e.iter().any(|x| x == t));
  if direct {
    func(&mut d, "G", "c", e);
    let e = sv("G ( 0 )");
    return agree_hash(ch, &mut d, &e);
  }
  agree(ch, &d, &e, false, Err::Any)
}

/// `##`/`#` reach an argument only through another macro: build them by pasting.
fn agree_hash(ch: &mut Ch, d: &mut Defs, _e: &[String]) -> V {
  let Some(Def::Fn(_, body)) = d.remove("G") else { unreachable!() };
  var(d, "HH", sv("# ## #"));
  // Forward through one level, so that HH is expanded before F sees it.
  let body: Vec<String> = body.into_iter().map(|t| match t.as_str() { "##" => "HH".to_string(), "F" => "FF".into(), _ => t }).collect();
  func(d, "FF", "a b", sv("F ( a , b )"));
  agree(ch, d, &body, false, Err::Any)
}

fn c02_argpairs(ch: &mut Ch) -> V {
  let (l, r) = (ch.of(OPS), ch.of(OPS));
  if [l, r].iter().any(|s| matches!(*s, "," | "(")) {
    return V::Skip("not an argument");
  }
  let mut d = Defs::new();
  func(&mut d, "F", "a b", sv("a ## b"));
  let e = vec!["F".into(), "(".into(), l.to_string(), ",".into(), r.to_string(), ")".into()];
  agree(ch, &d, &e, false, Err::Exact)
}

fn c02_ends(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let mut e = vec![];
  let (pre, post) = (ch.of(&["", "/*c*/", "x"]), ch.of(&["", "/*c*/", "x"]));
  e.extend(sv(pre));
  e.push("##".to_string());
  e.extend(sv(post));
  let k = ch.pick(4);
  match k {
    0 => agree(ch, &d, &e, false, Err::Exact),
    1 => agree(ch, &d, &e, true, Err::Exact),
    2 => {
      func(&mut d, "F", "a", e);
      agree(ch, &d, &sv("F ( 1 )"), false, Err::Exact)
    },
    _ => {
      let mut e2 = vec!["a".to_string()];
      if ch.flag() {
        e2.extend(e);
      } else {
        e.extend(e2);
        e2 = e;
      }
      func(&mut d, "F", "a", e2);
      let a = sv(ch.of(&["F ( 1 )", "F ( )", "F ( x y )"]));
      agree(ch, &d, &a, false, Err::Any)
    },
  }
}

fn c02_names(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  var(&mut d, "AB", sv(ch.of(&["1", "AB 2", "A ## B", "C ( 5 )"])));
  func(&mut d, "CD", "p", sv(ch.of(&["p", "CD ( p )", "C ## D ( p )", "A ## B p"])));
  func(&mut d, "J", "a b", sv("a ## b"));
  var(&mut d, "A", sv("7"));
  var(&mut d, "C", sv("CC"));
  let e = sv(ch.of(&["J ( A , B )", "J ( C , D ) ( 3 )", "J ( C , D ) ( A )", "A ## B", "C ## D ( 4 )", "J ( J ( A , ) , B )", "J ( J , ) ( A , B )", "CD ( A ## B )", "J ( A , B ) J ( C , D ) ( J ( A , B ) )"]));
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Any)
}

fn c02_nested(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  func(&mut d, "J", "a b", sv("a ## b"));
  func(&mut d, "K", "a b", sv(ch.of(&["J ( a , b )", "J ( a , b ) b", "J ( a ## b , 1 )", "J ( # a , b )"])));
  func(&mut d, "N", "a b", sv(ch.of(&["K ( a , b )", "K ( b , a )", "K ( a a , b )", "K ( J ( a , b ) , a )"])));
  var(&mut d, "X", sv("2"));
  var(&mut d, "Y", sv(ch.of(&["X", "", "x y"])));
  let o = ch.of(&["J", "K", "N"]);
  let al = ["x", "1", "X", "Y", "", "J ( X , 1 )", "L"];
  let mut e = vec![o.to_string(), "(".into()];
  e.extend(sv(ch.of(&al)));
  e.push(",".into());
  e.extend(sv(ch.of(&al)));
  e.push(")".into());
  agree(ch, &d, &e, false, Err::Any)
}

// ---------------------------------------------------------------- C03

const SPELL: &[&str] = &[
  "x", "1", "+", "X", "\"s\"", "'c'", "\"a\\n\"", "(x)", ".", ",", "\"\\\"\"", "'\\\\'", "@", "\\", "->", "L'c'", "u8\"é\"", "1.5f", "0x1p", "[", "]", "{", "}", "#", "/*c*/", "é", "F", "'\"'", "\"a~~b\"", "...", "`", "$",
];

pub fn c03(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "arguments", bounds: format!("#a with every argument of up to {} tokens over {} spellings", t.q(2, 3), SPELL.len()), f: c03_args },
    Space { name: "bodies", bounds: "12 bodies mixing # with other uses of the parameters, 10x10 arguments".into(), f: c03_bodies },
    Space { name: "levels", bounds: "stringification after 0..=3 levels of forwarding, with objects, calls, empties and nested stringification as arguments".into(), f: c03_levels },
    Space { name: "line", bounds: "__LINE__ and __FILE__, alone and among other tokens, reaching # unexpanded or expanded at every level".into(), f: c03_line },
    Space { name: "stray", bounds: "# before every kind of token in object-like and function-like macros".into(), f: c03_stray },
  ]
}

fn spell(ch: &mut Ch) -> Vec<String> {
  let s = ch.of(SPELL);
  if s == "(x)" {
    sv("( x )")
  } else {
    vec![s.replace('~', " ")]
  }
}

fn c03_args(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  var(&mut d, "X", sv("9 9"));
  func(&mut d, "F", "z", sv("z"));
  let variadic = ch.flag();
  if variadic {
    func(&mut d, "S", "...", sv("# __VA_ARGS__"));
  } else {
    func(&mut d, "S", "a", sv("# a"));
  }
  let n = ch.pick(ch.tier.q(2, 3) + 1);
  let mut e = sv("S (");
  for _ in 0..n {
    e.extend(spell(ch));
  }
  e.push(")".into());
  agree(ch, &d, &e, false, Err::Exact)
}

fn c03_bodies(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  var(&mut d, "X", sv("9"));
  func(&mut d, "S", "a b", sv(ch.of(&["# a # b", "# b # a", "a # a", "# a a", "\"<\" # a \">\"", "# a ## b", "L ## # a", "# a , # b", "# /*c*/ a", "# a X", "X # a", "a # b a"])));
  let al = ["", "x", "X", "\"s\"", "1 + X", "( 1 , 2 )", "/*c*/", "- 'c'", "#", "S"];
  let mut e = sv("S (");
  e.extend(sv(ch.of(&al)));
  e.push(",".into());
  e.extend(sv(ch.of(&al)));
  e.push(")".into());
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Any)
}

fn c03_levels(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  var(&mut d, "X", sv(ch.of(&["9", "x y", "", "\"s\"", "S ( q )", "X"])));
  func(&mut d, "S", "a", sv("# a"));
  func(&mut d, "S2", "b", sv("S ( b )"));
  func(&mut d, "S3", "c", sv(ch.of(&["S2 ( c )", "S2 ( c + X )", "S2 ( S ( c ) )", "S ( c ) S2 ( c )"])));
  func(&mut d, "I", "a", sv("a"));
  let o = ch.of(&["S", "S2", "S3"]);
  let mut e = vec![o.to_string(), "(".into()];
  for _ in 0..1 + ch.pick(2) {
    e.extend(sv(ch.of(&["X", "x", "I ( X )", "S ( X )", "S2 ( X )", "( X )", "\"\\\\\"", "'\"'", "", "I"])));
  }
  e.push(")".into());
  let named = ch.flag();
  agree(ch, &d, &e, named, Err::Any)
}

fn c03_line(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  func(&mut d, "S", "a", sv("# a"));
  func(&mut d, "S2", "b", sv("S ( b )"));
  func(&mut d, "V", "...", sv("# __VA_ARGS__"));
  func(&mut d, "V2", "...", sv("V ( __VA_ARGS__ )"));
  func(&mut d, "P", "a", sv(ch.of(&["\"p\" S2 ( a )", "S2 ( a ) \"q\"", "S ( a )", "S2 ( x a )", "S2 ( a y )"])));
  var(&mut d, "X", sv(ch.of(&["S ( __LINE__ )", "S2 ( __LINE__ )", "__LINE__", "S2 ( x + __LINE__ )", "V ( __FILE__ , 1 )", "V2 ( 1 , __FILE__ )", "P ( __LINE__ )"])));
  var(&mut d, "Y", sv(ch.of(&["X", "S ( X )", "S2 ( X )", "X X", "P ( X )"])));
  let o = ch.of(&["X", "Y", "S ( __LINE__ )", "S2 ( __LINE__ )", "S2 ( a __LINE__ b )", "V2 ( __LINE__ , __FILE__ )", "P ( __FILE__ )", "S2 ( Y )"]);
  let named = ch.flag();
  // A string whose own text depends on the line cannot be stringified again.
  let mut dd = d.clone();
  if named {
    var(&mut dd, "M", sv(o));
  }
  let mut pp = Pp::new(&dd, Mode::Intersect);
  let r = if named { pp.expand_var("M") } else { pp.expand_expr(&sv(o)) };
  if let Ok(r) = &r {
    if r.iter().any(|t| matches!(&t.k, K::Str(p) if p.iter().any(|p| *p == Piece::Line("?".into())))) {
      return V::Skip("stringifies a string that holds the line number");
    }
  }
  agree(ch, &d, &sv(o), named, Err::Any)
}

fn c03_stray(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let t = ch.of(&["b", "1", "\"s\"", "#", "(", "X", "", "/*c*/", "__LINE__"]);
  let mut body = vec!["#".to_string()];
  body.extend(sv(t));
  if ch.flag() {
    body.insert(0, "a".into());
  }
  if ch.flag() {
    body.push("a".into());
  }
  var(&mut d, "X", sv("9"));
  let k = ch.pick(4);
  match k {
    0 => agree(ch, &d, &body, false, Err::Exact),
    1 => agree(ch, &d, &body, true, Err::Exact),
    2 => {
      func(&mut d, "F", "a", body);
      agree(ch, &d, &sv("F ( 1 )"), false, Err::Exact)
    },
    _ => {
      func(&mut d, "F", "", body);
      agree(ch, &d, &sv("F ( )"), false, Err::Exact)
    },
  }
}

// ---------------------------------------------------------------- C04

pub fn c04(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "arity", bounds: format!("8 parameter lists x every argument text of up to {} tokens over names, commas and brackets", t.q(5, 6)), f: c04_arity },
    Space { name: "parameters", bounds: "every parameter list of up to 3 elements over identifiers, duplicates, ..., __VA_ARGS__, numbers, punctuation and comments; defined, expanded and called".into(), f: c04_params },
    Space { name: "va-args", bounds: "__VA_ARGS__ in every position of variable-like, function-like, variadic and nested bodies".into(), f: c04_va },
    Space { name: "diagnostics", bounds: "wrong arity reached through 5 kinds of nesting, unknown names of both kinds".into(), f: c04_diag },
  ]
}

fn c04_arity(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let i = ch.pick(8);
  let (p, b) = [("", "z"), ("a", "< a >"), ("a b", "< a | b >"), ("a b c", "< a | b | c >"), ("...", "< __VA_ARGS__ >"), ("a ...", "< a | __VA_ARGS__ >"), ("a b ...", "< a | b | __VA_ARGS__ >"), ("a /*c*/ b /*d*/ ...", "< a | b | __VA_ARGS__ >")][i];
  func(&mut d, "F", p, sv(b));
  let mut e = sv("F (");
  e.extend(seq(ch, &["x", ",", "(", ")", "[", "}", "/*c*/"], 0, ch.tier.q(5, 6)));
  e.push(")".into());
  agree(ch, &d, &e, false, Err::Exact)
}

fn c04_params(ch: &mut Ch) -> V {
  let p = seq(ch, &["a", "b", "...", "/*c*/", "__VA_ARGS__", "1", ",", "\"s\"", "a1"], 0, 3);
  let mut d = Defs::new();
  let body = sv(ch.of(&["x", "a", "b a", "# a", "a1 ## b", "__VA_ARGS__"]));
  d.insert("F".into(), Def::Fn(p.clone(), body.clone()));
  let how = ch.pick(2);
  ch.note(format!("{}\n{}", show_defs(&d), ["expand_fn_macro(F)", "expand: F ( p , q )"][how]));
  let want = check_params(&p);
  if how == 1 {
    return agree(ch, &d, &sv("F ( p , q )"), false, if want.is_ok() { Err::Any } else { Err::Exact });
  }
  let got = match guard(|| build(&d).expand_fn_macro("F").map(|(p, b)| (own(&p), own(&b)))) {
    Ok(g) => g,
    Err(m) => return V::Fail(m),
  };
  match (got, want) {
    (Err(g), Err(w)) => {
      if err_kind(&g) == w {
        V::Ok(h(&format!("{w:?}")))
      } else {
        V::Fail(format!("crate: {:?}\nC: {w:?}", err_kind(&g)))
      }
    },
    (Ok(g), Err(w)) => V::Fail(format!("crate accepts {:?}\nC: {w:?}", shows(&g.1))),
    (r, Ok(ps)) => {
      if let Err(w) = check_body(&ps, &body, true) {
        return match r {
          Err(g) if err_kind(&g) == w => V::Ok(1),
          r => V::Fail(format!("crate: {r:?}\nC: {w:?}")),
        };
      }
      if body[0] == "#" && !ps.contains(&"a".to_string()) {
        return match r {
          Err(g) if err_kind(&g) == E::StringifyNonArg => V::Ok(2),
          r => V::Fail(format!("crate: {r:?}\nC: {:?}", E::StringifyNonArg)),
        };
      }
      match r {
        Err(g) => V::Fail(format!("crate: {:?}\nC accepts it", err_kind(&g))),
        Ok((gp, _)) => {
          let names: Vec<String> = gp.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).map(show).collect();
          if names == ps {
            V::Ok(h(&names))
          } else {
            V::Fail(format!("parameters returned as {names:?}"))
          }
        },
      }
    },
  }
}

fn c04_va(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let b = ch.of(&["__VA_ARGS__", "x __VA_ARGS__", "__VA_ARGS__ x", "# __VA_ARGS__", "x ## __VA_ARGS__", "I ( __VA_ARGS__ )"]);
  func(&mut d, "I", "a", sv("a"));
  let k = ch.pick(7);
  match k {
    0 => agree(ch, &d, &sv(b), false, Err::Exact),
    1 => agree(ch, &d, &sv(b), true, Err::Exact),
    2 => {
      func(&mut d, "F", "a", sv(b));
      agree(ch, &d, &sv("F ( 1 )"), false, Err::Exact)
    },
    3 => {
      func(&mut d, "F", "", sv(b));
      agree(ch, &d, &sv("F ( )"), false, Err::Exact)
    },
    4 => {
      var(&mut d, "Q", sv(b));
      agree(ch, &d, &sv("Q"), false, Err::Exact)
    },
    5 => {
      func(&mut d, "F", "...", sv(b));
      let e = sv(ch.of(&["F ( )", "F ( 1 )", "F ( 1 , 2 )", "F ( ( 1 , 2 ) )", "F ( , )"]));
      agree(ch, &d, &e, false, Err::Exact)
    },
    _ => {
      func(&mut d, "F", "a ...", sv(b));
      func(&mut d, "G", "...", sv(ch.of(&["F ( __VA_ARGS__ )", "F ( 0 , __VA_ARGS__ )", "F ( __VA_ARGS__ , 0 )"])));
      let e = sv(ch.of(&["F ( 1 )", "F ( 1 , 2 )", "F ( )", "G ( )", "G ( 1 )", "G ( 1 , 2 , 3 )"]));
      agree(ch, &d, &e, false, Err::Exact)
    },
  }
}

fn c04_diag(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  func(&mut d, "F", ch.of(&["a b", "", "a", "a b ..."]), sv("x"));
  let call = ch.of(&["F ( )", "F ( 1 )", "F ( 1 , 2 )", "F ( 1 , 2 , 3 )", "F"]);
  let k = ch.pick(6);
  match k {
    0 => agree(ch, &d, &sv(call), false, Err::Exact),
    1 => {
      var(&mut d, "Q", sv(call));
      agree(ch, &d, &sv("1 + Q"), false, Err::Exact)
    },
    2 => {
      func(&mut d, "I", "a", sv("a"));
      agree(ch, &d, &sv(&format!("I ( {call} )")), false, Err::Exact)
    },
    3 => {
      func(&mut d, "W", "a", sv(call));
      agree(ch, &d, &sv("W ( 0 )"), false, Err::Exact)
    },
    4 => {
      func(&mut d, "S", "a", sv("# a"));
      agree(ch, &d, &sv(&format!("S ( {call} )")), false, Err::Exact)
    },
    _ => {
      // Unknown names, of either kind.
      var(&mut d, "Q", sv("1"));
      let n = ch.of(&["nope", "F", "Q", "", "f", "q"]);
      let fnk = ch.flag();
      ch.note(format!("{}\n{}({n:?})", show_defs(&d), if fnk { "expand_fn_macro" } else { "expand_var_macro" }));
      let r = guard(|| {
        let m = build(&d);
        if fnk {
          m.expand_fn_macro(n).map(|_| ())
        } else {
          m.expand_var_macro(n).map(|_| ())
        }
      });
      let known = if fnk { n == "F" } else { n == "Q" };
      match r {
        Ok(Ok(())) if known => V::Ok(1),
        Ok(Err(ExpansionError::MacroNotFound)) if !known => V::Ok(2),
        r => V::Fail(format!("{r:?}")),
      }
    },
  }
}

// ---------------------------------------------------------------- C05

pub fn c05(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "histories", bounds: format!("every sequence of {} define/undefine operations on 2 names, return values after every step, all expansions and a clone after the last", t.q(4, 5)), f: c05_hist },
    Space { name: "redefinition", bounds: "every pair of definitions of one name out of 30 x 30 (kinds, parameters, bodies, comments, blanks, prefixes of each other)".into(), f: c05_redef },
    Space { name: "order", bounds: "4 macros that use each other, defined in each of the 24 orders, with every prefix expanded".into(), f: c05_order },
  ]
}

fn c05_defs() -> Vec<(&'static str, Def)> {
  let f = |p: &str, b: &str| Def::Fn(sv(p), sv(b));
  let v = |b: &str| Def::Var(sv(b));
  vec![
    ("v1", v("1")),
    ("vN", v("N")),
    ("v12", v("1 2")),
    ("v", v("")),
    ("vN(1)", v("N ( 1 )")),
    ("fa", f("a", "a N")),
    ("f", f("", "1")),
    ("fab", f("a b", "a N")),
  ]
}

fn rfilter(x: &[String]) -> Vec<&String> {
  x.iter().filter(|s| !(s.trim().is_empty() || is_comment(s.trim()))).collect()
}
fn differs(a: &Def, b: &Def) -> bool {
  match (a, b) {
    (Def::Var(a), Def::Var(b)) => rfilter(a) != rfilter(b),
    (Def::Fn(p, a), Def::Fn(q, b)) => rfilter(p) != rfilter(q) || rfilter(a) != rfilter(b),
    _ => true,
  }
}

fn define(m: &mut MacroSet, n: &str, d: &Def) -> bool {
  match d {
    Def::Var(b) => m.define_var_macro(n, b),
    Def::Fn(p, b) => m.define_fn_macro(n, p, b),
  }
}

type Observed = Vec<(String, Result<(Vec<MacroToken<'static>>, Vec<MacroToken<'static>>), ExpansionError>)>;

fn observe(m: &MacroSet, names: &[&str]) -> Observed {
  let mut o = vec![];
  for n in names {
    o.push((format!("var {n}"), m.expand_var_macro(n).map(|v| (vec![], own(&v)))));
    o.push((format!("fn {n}"), m.expand_fn_macro(n).map(|(p, v)| (own(&p), own(&v)))));
    o.push((format!("expr {n}"), m.expand(&[*n]).map(|v| (vec![], own(&v)))));
    o.push((format!("call {n}"), m.expand(&[*n, "(", "7", ")", "N", "Q"]).map(|v| (vec![], own(&v)))));
  }
  o
}

fn c05_hist(ch: &mut Ch) -> V {
  let names = ["N", "Q"];
  let defs = c05_defs();
  let depth = ch.tier.q(4, 5);
  let per = defs.len() + 2;
  let mut ops = vec![];
  for _ in 0..depth {
    ops.push((ch.pick(2), ch.pick(per)));
  }
  // When a clone is taken (before which step).
  let clone_at = ch.pick(depth);
  let show: Vec<String> = ops
    .iter()
    .map(|(n, k)| {
      let n = names[*n];
      match *k {
        0 => format!("undef_var {n}"),
        1 => format!("undef_fn {n}"),
        k => format!("define {n} as {}", defs[k - 2].0),
      }
    })
    .collect();
  ch.note(format!("{}; clone taken before step {clone_at}", show.join("; ")));
  let r = guard(|| -> Result<u64, String> {
    let mut m = MacroSet::new();
    let mut model: BTreeMap<String, Def> = BTreeMap::new();
    let mut snap = None;
    for (i, (n, k)) in ops.iter().enumerate() {
      if i == clone_at {
        snap = Some((m.clone(), model.clone()));
      }
      let n = names[*n];
      let (got, want) = match *k {
        0 => {
          let w = matches!(model.get(n), Some(Def::Var(_)));
          if w {
            model.remove(n);
          }
          (m.undefine_var_macro(n), w)
        },
        1 => {
          let w = matches!(model.get(n), Some(Def::Fn(..)));
          if w {
            model.remove(n);
          }
          (m.undefine_fn_macro(n), w)
        },
        k => {
          let d = defs[k - 2].1.clone();
          let w = model.get(n).is_some_and(|o| differs(o, &d));
          model.insert(n.into(), d.clone());
          (define(&mut m, n, &d), w)
        },
      };
      if got != want {
        return Err(format!("step {i} returned {got}, the definitions in force say {want}"));
      }
    }
    let check = |m: &MacroSet, model: &BTreeMap<String, Def>, what: &str| -> Result<u64, String> {
      let o = observe(m, &names);
      let o2 = observe(m, &names);
      if o != o2 {
        return Err(format!("{what}: expanding changed the set"));
      }
      let fresh = build(model);
      let w = observe(&fresh, &names);
      for (a, b) in o.iter().zip(&w) {
        if a != b {
          return Err(format!("{what}: {} gives {:?}, a set with just the live definitions gives {:?}", a.0, a.1, b.1));
        }
      }
      // Kind membership.
      for n in names {
        let (v, f) = (m.expand_var_macro(n), m.expand_fn_macro(n));
        let vk = v != Err(ExpansionError::MacroNotFound);
        let fk = f != Err(ExpansionError::MacroNotFound);
        let want = (matches!(model.get(n), Some(Def::Var(_))), matches!(model.get(n), Some(Def::Fn(..))));
        if (vk, fk) != want {
          return Err(format!("{what}: {n} is variable-like: {vk}, function-like: {fk}; live definition says {want:?}"));
        }
      }
      Ok(h(&format!("{o:?}")))
    };
    let (sm, smodel) = snap.unwrap();
    check(&sm, &smodel, "clone")?;
    check(&m, &model, "set")
  });
  match r {
    Ok(Ok(x)) => V::Ok(x),
    Ok(Err(m)) => V::Fail(m),
    Err(p) => V::Fail(p),
  }
}

fn c05_redef(ch: &mut Ch) -> V {
  let bodies = ["", "1", "1 2", "1 2 3", "2", "/*c*/", "1 /*c*/", "/*c*/ 1 2", "1 //x 2", "~", "1 ~ 2", "a"];
  let params = ["", "a", "a b", "a ...", "a /*c*/", "b"];
  let pick = |ch: &mut Ch| -> Def {
    if ch.flag() {
      let p = params[ch.pick(params.len())];
      Def::Fn(sv(p), sv(bodies[ch.pick(bodies.len())]))
    } else {
      Def::Var(sv(bodies[ch.pick(bodies.len())]))
    }
  };
  let a = pick(ch);
  let b = pick(ch);
  ch.note(format!("define N as {a:?}; then as {b:?}"));
  let r = guard(|| {
    let mut m = MacroSet::new();
    let x = define(&mut m, "N", &a);
    let y = define(&mut m, "N", &b);
    (x, y)
  });
  match r {
    Ok((x, y)) => {
      let w = (false, differs(&a, &b));
      if (x, y) == w {
        V::Ok(y as u64)
      } else {
        V::Fail(format!("define returned {:?}, expected {w:?}", (x, y)))
      }
    },
    Err(p) => V::Fail(p),
  }
}

fn c05_order(ch: &mut Ch) -> V {
  let mut all = vec![
    ("A", Def::Var(sv("B ( C ) D"))),
    ("B", Def::Fn(sv("x"), sv("x C # x"))),
    ("C", Def::Var(sv("D D"))),
    ("D", Def::Var(sv(ch.of(&["A", "1", "B ( 2 )"])))),
  ];
  let mut order = vec![];
  while !all.is_empty() {
    let i = ch.pick(all.len());
    order.push(all.remove(i));
  }
  // A stale definition first, undefined or overwritten in between.
  let stale = ch.pick(4);
  let undef = ch.flag();
  let names: Vec<&str> = order.iter().map(|o| o.0).collect();
  ch.note(format!("order {names:?}, stale first definition of {} {}", names[stale], if undef { "undefined" } else { "overwritten" }));
  let r = guard(|| -> Result<u64, String> {
    let mut m = MacroSet::new();
    define(&mut m, names[stale], &if stale % 2 == 0 { Def::Fn(sv("q"), sv("9")) } else { Def::Var(sv("9")) });
    let _ = observe(&m, &["A", "B", "C", "D"]);
    if undef {
      m.undefine_fn_macro(names[stale]);
      m.undefine_var_macro(names[stale]);
    }
    let mut model = BTreeMap::new();
    for (i, (n, d)) in order.iter().enumerate() {
      define(&mut m, n, d);
      model.insert(n.to_string(), d.clone());
      if i + 1 < order.len() && !undef && !model.contains_key(names[stale]) {
        continue;
      }
      let (o, w) = (observe(&m, &["A", "B", "C", "D"]), observe(&build(&model), &["A", "B", "C", "D"]));
      if o != w {
        return Err(format!("after defining {n}: {o:?}\nexpected {w:?}"));
      }
    }
    Ok(h(&format!("{:?}", observe(&m, &["A"]))))
  });
  match r {
    Ok(Ok(x)) => V::Ok(x),
    Ok(Err(m)) => V::Fail(m),
    Err(p) => V::Fail(p),
  }
}

// ---------------------------------------------------------------- C06

pub fn c06(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "bodies", bounds: format!("F(x, y) with every body of up to {} tokens over parameters, # ##, helper calls, an object macro and punctuation", t.q(5, 6)), f: c06_bodies },
    Space { name: "helpers", bounds: "22 bodies x 14 helper definitions x 6 helper-of-helper definitions x 6 parameter lists (comments, variadic)".into(), f: c06_helpers },
    Space { name: "handed_on", bounds: "variable arguments in 12 argument lists of one or two nested calls of 5 kinds of macro (one, two, no and variable parameters) with 30 combinations of bodies, in 4 surroundings".into(), f: c06_handed },
    Space { name: "variadic", bounds: "16 bodies with __VA_ARGS__ x 6 parameter lists x 1..=3 variadic arguments".into(), f: c06_variadic },
  ]
}

/// Carry out what `expand_fn_macro` left to do, for the given arguments.
/// Returns tokens; strings from `#` as pieces.
fn instantiate(body: &[MacroToken<'static>], args: &[Vec<String>]) -> Result<Vec<T>, String> {
  let hs = std::rc::Rc::new(std::collections::BTreeSet::new());
  let body: Vec<&MacroToken> = body.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).collect();
  let arg = |t: &MacroToken| -> Option<usize> {
    (0..8).find(|i| *t == MacroToken::Arg(MacroArg::new(*i)))
  };
  let defs = BTreeMap::new();
  // Rebuild it as a function-like macro over spellings and let the model's substitution do the work.
  let params: Vec<String> = (0..args.len()).map(|i| format!("__p{i}")).collect();
  let mut b = vec![];
  for t in &body {
    b.push(match arg(t) {
      Some(i) => {
        if i >= args.len() {
          return Err(format!("parameter reference {i} of {}", args.len()));
        }
        params[i].clone()
      },
      None => match t {
        MacroToken::Lit(Lit::String(LitString::Ordinary(x))) => quote(&String::from_utf8_lossy(x)),
        MacroToken::Lit(Lit::Int(i)) => format!("{}", i.value),
        t => show(t),
      },
    });
  }
  // `#` before __LINE__/__FILE__ is the crate's notation for "the string of its value".
  let mut b2 = vec![];
  let mut i = 0;
  let mut params2 = params.clone();
  let mut args2: Vec<Vec<T>> = args.iter().map(|a| a.iter().map(|s| T { s: s.clone(), k: K::Tok, hs: std::rc::Rc::clone(&hs) }).collect()).collect();
  while i < b.len() {
    if b[i] == "#" && i + 1 < b.len() && (b[i + 1] == "__LINE__" || b[i + 1] == "__FILE__") {
      let p = format!("__line{i}");
      params2.push(p.clone());
      args2.push(vec![T { s: b[i + 1].clone(), k: K::Line, hs: std::rc::Rc::clone(&hs) }]);
      b2.push("#".into());
      b2.push(p);
      i += 2;
    } else {
      b2.push(b[i].clone());
      i += 1;
    }
  }
  let mut pp = Pp::new(&defs, Mode::Intersect);
  pp.subst(&b2, &params2, &args2).map_err(|e| format!("carrying out the remaining operators gives {e:?}"))
}

/// Text of tokens with adjacent strings merged and blanks inside strings made by `#` ignored.
fn norm(ts: &[T]) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  let mut open = false;
  for t in ts {
    let s = match &t.k {
      K::Str(p) if t.s.is_empty() => Some(p.iter().map(|p| match p { Piece::S(s) => s.replace(' ', ""), Piece::Line(l) => format!("<{l}>") }).collect::<String>()),
      K::Tok => match Lit::try_from(t.s.as_str()) {
        Ok(Lit::String(LitString::Ordinary(b))) => Some(String::from_utf8_lossy(&b).replace(' ', "")),
        _ => None,
      },
      _ => None,
    };
    match s {
      Some(s) if open => out.last_mut().unwrap().push_str(&s),
      Some(s) => {
        out.push(format!("\"{s}"));
        open = true;
      },
      None => {
        open = false;
        out.push(match &t.k {
          K::Str(p) => format!("{}\"{}", t.s, str_text(p).replace(' ', "")),
          _ => match Lit::try_from(t.s.as_str()) {
            Ok(Lit::Int(i)) => format!("{}", i.value),
            Ok(l @ Lit::String(_)) => format!("{l:?}").replace(' ', ""),
            _ => t.s.clone(),
          },
        });
      },
    }
  }
  out
}

fn c06_agree(ch: &mut Ch, d: &Defs, arg_sets: &[Vec<Vec<String>>], nvar: Option<usize>) -> V {
  ch.note(format!("{}\nexpand_fn_macro(F)", show_defs(d)));
  let got = match guard(|| build(d).expand_fn_macro("F").map(|(p, b)| (own(&p), own(&b)))) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  let mut last = V::Skip("no argument in the domain");
  // The variable arguments are one token in the generic expansion. When that cannot give what C gives once they
  // are known, since a call has as many arguments as there are commas, an error is the honest answer.
  if let (Some(n), Err(_)) = (nvar, &got) {
    const COMMA: &str = "\u{2e34}";
    for args in arg_sets {
      let mut joined = args.clone();
      let tail = joined.split_off(n);
      joined.push(tail.join(&COMMA.to_string()));
      let c = Pp::new(d, Mode::Intersect).call("F", args);
      let whole = Pp::new(d, Mode::Intersect).call("F", &joined);
      let text = |r: &Result<Vec<T>, E>| r.as_ref().ok().map(|r| norm(r).join(" ").replace(COMMA, ","));
      if text(&c) != text(&whole) {
        return V::Ok(5);
      }
    }
  }
  for args in arg_sets {
    let mut wants = vec![];
    let mut restringified = false;
    for mode in [Mode::Intersect, Mode::Union, Mode::Context] {
      let mut pp = Pp::new(d, mode);
      let r = pp.call("F", args);
      ch.model_steps += pp.steps;
      restringified |= pp.restringified;
      if !pp.pasted_names.is_empty() {
        wants.push(Err(E::Unspecified("pasting forms a macro name")));
        break;
      }
      wants.push(r);
    }
    if let Some(Err(E::Unspecified(r))) = wants.iter().find(|w| matches!(w, Err(E::Unspecified(_)))) {
      last = V::Skip(r);
      continue;
    }
    if wants.iter().any(|w| matches!(w, Ok(w) if w.iter().any(|t| matches!(&t.k, K::Str(p) if p.iter().any(|p| *p == Piece::Line("?".into())))))) {
      last = V::Skip("stringifies a string that holds the line number");
      continue;
    }
    if wants.iter().any(|w| matches!(w, Ok(w) if w.iter().any(|t| t.k == K::Tok && (t.s == "#" || t.s == "##")))) {
      last = V::Skip("the result holds a literal # or ##");
      continue;
    }
    match (&got, &wants[0]) {
      (Err(_), Err(_)) => {
        last = V::Ok(1);
      },
      (Err(_), Ok(_)) if restringified => {
        // Only an instance can say how the argument is spelled; an error is the honest answer.
        last = V::Ok(3);
      },
      (Err(e), Ok(w)) => {
        // Not expressible before the arguments are known.
        return V::Fail(format!("expand_fn_macro: {e:?}\nbut C gives for F({}): {}", args.iter().map(|a| a.join(" ")).collect::<Vec<_>>().join(", "), showt(w)));
      },
      (Ok(_), Err(_)) => {
        // The error shows only once the arguments are known (e.g. an invalid paste).
        last = V::Ok(2);
      },
      (Ok((p, b)), Ok(_)) => {
        let np = p.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).count();
        let mut a = args.clone();
        if let Some(n) = nvar {
          // The variadic arguments, with their commas, are one parameter.
          let tail: Vec<Vec<String>> = a.split_off(n);
          let mut v = vec![];
          for (i, t) in tail.into_iter().enumerate() {
            if i > 0 {
              v.push(",".to_string());
            }
            v.extend(t);
          }
          a.push(v);
        }
        if a.len() != np {
          return V::Fail(format!("{np} parameters returned, {} declared", a.len()));
        }
        let fn_name = |t: &MacroToken| matches!(t, MacroToken::Identifier(i) if matches!(d.get(i.as_str()), Some(Def::Fn(..))));
        if b.windows(2).any(|w| fn_name(&w[0]) && matches!(&w[1], MacroToken::Arg(_))) && args.iter().any(|a| a.first().is_some_and(|t| t == "(")) {
          last = V::Skip("a call could begin with the argument");
          continue;
        }
        let r = match instantiate(b, &a) {
          Ok(r) => r,
          Err(m) => return V::Fail(format!("{m}\nbody: {}", shows(b))),
        };
        let g = norm(&r);
        if !wants.iter().any(|w| matches!(w, Ok(w) if norm(w) == g)) {
          return V::Fail(format!(
            "for F({}):\nbody:  {}\ngives: {}\nC:     {}",
            args.iter().map(|a| a.join(" ")).collect::<Vec<_>>().join(", "),
            shows(b),
            g.join(" "),
            wants.iter().map(|w| match w { Ok(w) => norm(w).join(" "), Err(e) => format!("{e:?}") }).collect::<Vec<_>>().join("  or  ")
          ));
        }
        last = V::Ok(h(&g));
      },
    }
  }
  last
}

fn c06_argsets(n: usize) -> Vec<Vec<Vec<String>>> {
  let mk = |xs: &[&str]| -> Vec<Vec<String>> { xs.iter().take(n).map(|s| sv(s)).collect() };
  vec![mk(&["p", "q", "r"]), mk(&["7", "8", "9"]), mk(&["p + r", "q - s", "t"]), mk(&["( p , r )", "q [ 0 ]", "r"])]
}

fn c06_bodies(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let b = seq(ch, &["x", "y", "#", "##", "1", "O", "G", "(", ")", ","], 0, ch.tier.q(5, 6));
  if b.windows(2).any(|w| w[0] == "G" && (w[1] == "x" || w[1] == "y")) {
    return V::Skip("a call could begin with the argument");
  }
  func(&mut d, "F", "x y", b);
  func(&mut d, "G", "a", sv("a + # a"));
  var(&mut d, "O", sv("o z"));
  c06_agree(ch, &d, &c06_argsets(2), None)
}

fn c06_helpers(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let p = ch.of(&["x y", "x /*c*/ y", "/*c*/ x y /*d*/", "y x", "x G y", "x y O"]);
  let b = ch.of(&[
    "G ( x )", "G ( x , y )", "G ( x ## y )", "G ( # x )", "# x G ( y )", "x ## y ## 1", "1 ## x", "x ## 1 y", "G ( x ) ## y", "G ( O )", "O x", "x O y", "G ( G ( x ) )", "G ( ( x , y ) )", "G ( x 1 )", "x /*c*/ ## y", "x ## /*c*/ 1", "# /*c*/ x", "L ## # x", "G ( x ## 1 ) G ( 1 ## x )", "G /*c*/ ( x )", "G ( __LINE__ x )",
  ]);
  func(&mut d, "F", p, sv(b));
  let gi = ch.pick(14);
  let (gp, gb) = [
    ("a", "a"), ("a", "< a a >"), ("a", "# a"), ("a", "a ## 2"), ("a", "2 ## a"), ("a", "H ( a )"), ("a", "H ( a ) a"), ("a b", "a ## b"), ("a b", "# b a"), ("a", "x a"), ("...", "__VA_ARGS__"), ("...", "# __VA_ARGS__"), ("a", "a ## a"), ("a", "F ( a , a )"),
  ][gi];
  func(&mut d, "G", gp, sv(gb));
  func(&mut d, "H", "a", sv(ch.of(&["a", "# a", "a ## 3", "G ( a )", "O a", "( a )"])));
  var(&mut d, "O", sv(ch.of(&["o", "", "G", "o \"s\""])));
  c06_agree(ch, &d, &c06_argsets(p.split(' ').filter(|p| !p.starts_with('/')).count()), None)
}

/// Variable arguments handed to macros of every kind.
fn c06_handed(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let (p, n) = [("...", 0), ("x ...", 1)][ch.pick(2)];
  let deep = ch.tier == Tier::Thorough;
  let helpers = ["G", "V", "Y", "P", "Z"];
  let head = helpers[ch.pick(helpers.len())];
  let args = ch.of(&["__VA_ARGS__", "0 , __VA_ARGS__", "__VA_ARGS__ , 0", "( __VA_ARGS__ )", "__VA_ARGS__ ## 1", "# __VA_ARGS__", "x , __VA_ARGS__", "__VA_ARGS__ __VA_ARGS__", "- __VA_ARGS__", "( 0 ) + __VA_ARGS__", "( 0 ) , __VA_ARGS__", "( ( __VA_ARGS__ ) , 0 )"]);
  let mut call = format!("{head} ( {args} )");
  if ch.flag() {
    let outer = helpers[ch.pick(helpers.len())];
    call = if deep && ch.flag() { format!("{outer} ( 5 , {call} )") } else { format!("{outer} ( {call} )") };
  }
  let body = match ch.pick(4) {
    0 => call,
    1 => format!("f ( {call} , __VA_ARGS__ )"),
    2 => format!("{call} # __VA_ARGS__"),
    _ => format!("+ {call} ; __VA_ARGS__"),
  };
  func(&mut d, "F", p, sv(&body));
  func(&mut d, "G", "a", sv(ch.of(&["- a", "# a", "a ## 2", "Y ( a , a )", "a"])));
  func(&mut d, "V", "...", sv(ch.of(&["{ __VA_ARGS__ }", "G ( __VA_ARGS__ )", "# __VA_ARGS__"])));
  func(&mut d, "Y", "a b", sv(ch.of(&["a b", "b + # a", "a ## b"])));
  func(&mut d, "P", "a ...", sv(ch.of(&["a [ __VA_ARGS__ ]", "Y ( a , __VA_ARGS__ )"])));
  func(&mut d, "Z", "", sv("z"));
  let mut sets = vec![];
  for k in 1..=3 {
    let mut a: Vec<Vec<String>> = (0..n).map(|i| vec![format!("a{i}")]).collect();
    for i in 0..k {
      a.push(sv(["p", "q r", "7"][i]));
    }
    sets.push(a);
  }
  c06_agree(ch, &d, &sets, Some(n))
}
fn c06_variadic(ch: &mut Ch) -> V {
  let mut d = Defs::new();
  let (p, n) = [("...", 0), ("x ...", 1), ("x /*c*/ ...", 1), ("x y ...", 2), ("/*c*/ ... /*d*/", 0), ("x , ...", 9)][ch.pick(5)];
  let b = ch.of(&[
    "__VA_ARGS__", "# __VA_ARGS__", "f ( __VA_ARGS__ )", "G ( __VA_ARGS__ )", "S ( __VA_ARGS__ )", "S2 ( __VA_ARGS__ )", "1 ## __VA_ARGS__", "__VA_ARGS__ ## 1", "G ( 0 , __VA_ARGS__ )", "S2 ( ( __VA_ARGS__ ) )", "# __VA_ARGS__ __VA_ARGS__", "__VA_ARGS__ /*c*/ ## 1", "G ( S ( __VA_ARGS__ ) )", "[ __VA_ARGS__ ] O", "S2 ( __LINE__ , __VA_ARGS__ )", "S2 ( x ## __VA_ARGS__ )",
  ]);
  func(&mut d, "F", p, sv(b));
  func(&mut d, "G", "...", sv(ch.of(&["{ __VA_ARGS__ }", "# __VA_ARGS__", "S ( __VA_ARGS__ )"])));
  func(&mut d, "S", "...", sv("# __VA_ARGS__"));
  func(&mut d, "S2", "...", sv("S ( __VA_ARGS__ )"));
  var(&mut d, "O", sv("o"));
  let mut sets = vec![];
  for k in 1..=3 {
    let mut a: Vec<Vec<String>> = (0..n).map(|i| vec![format!("a{i}")]).collect();
    for i in 0..k {
      a.push(sv(["p", "q r", "7"][i]));
    }
    sets.push(a);
  }
  c06_agree(ch, &d, &sets, Some(n))
}
