//! C12, C17, C18: expressions and statements, executed on both sides.

use crate::cexpr::*;
use crate::engine::*;
use crate::gen::{self, Cx, Gen};
use crate::rs::Rs;
use crate::sem::*;

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C12" => vec![
      "the lexer and preprocessor stage is the crate's own; C11 operators without `&&`, `||` and the comma operator, which the crate does not support (reported as an invalid body)",
      "`(name)(x)` and `(name)++ *x` are not generated where C itself needs to know whether `name` is a type",
      "the branches of a conditional are both comparisons or both not",
      "operators are uninterpreted: a comparison's int value 0/1 and Rust's bool are identified, as are `!x` and `x == 0`, `a[i]` and `*a.add(i)`",
    ],
    _ => vec![],
  }
}

pub fn cx() -> Cx {
  let mut cx = Cx::default();
  cx.types.push(("T".into(), "T".into()));
  cx.types.push(("S".into(), "S".into()));
  cx
}

const BIN: &[&str] = &["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|"];
const ASG: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="];
const BIN_R: &[&str] = &["*", "-", "<<", "<", "==", "&", "^", "|"];
const ASG_R: &[&str] = &["=", "-="];

#[derive(Clone, Copy, PartialEq)]
enum Set {
  /// Every operator.
  All,
  /// One or two operators per precedence level.
  Reps,
  /// One operator per parsing function or code generation case.
  Few,
}

struct G<'a> {
  names: &'a [&'static str],
  next: usize,
  /// Special leaf (literal, sizeof) still available.
  special: bool,
  /// Operators with side effects and lvalues allowed.
  effects: bool,
  deref: bool,
  set: Set,
}

impl G<'_> {
  fn name(&mut self) -> E {
    let n = self.names[self.next % self.names.len()];
    self.next += 1;
    E::Id(n.into())
  }
  fn leaf(&mut self, ch: &mut Ch, lv: bool) -> E {
    if !lv && self.special {
      match ch.pick(if self.set == Set::All { 5 } else { 2 }) {
        0 => {},
        1 => {
          self.special = false;
          return E::Num("1".into(), 1);
        },
        2 => {
          self.special = false;
          return E::SizeOf(TY);
        },
        3 => {
          self.special = false;
          return E::Id("__LINE__".into());
        },
        _ => {
          self.special = false;
          return E::Num("300u".into(), 300);
        },
      }
    }
    self.name()
  }
  /// A tree with exactly `n` operators.
  fn tree(&mut self, ch: &mut Ch, n: usize, lv: bool) -> E {
    if n == 0 {
      return self.leaf(ch, lv);
    }
    let all = self.set == Set::All;
    if lv {
      return match ch.pick(4) {
        0 => E::Un("*", Box::new(self.tree(ch, n - 1, false))),
        1 => {
          let k = ch.pick(n);
          let a = self.tree(ch, k, false);
          E::Index(Box::new(a), Box::new(self.tree(ch, n - 1 - k, false)))
        },
        2 => E::Dot(Box::new(self.tree(ch, n - 1, true)), "f".into()),
        _ => E::Arrow(Box::new(self.tree(ch, n - 1, false)), "f".into()),
      };
    }
    let un: &[&'static str] = match (self.effects, self.deref) {
      (true, _) if self.set == Set::Few => &["-", "*", "++", "&"],
      (true, _) => &["+", "-", "!", "~", "*", "&", "++", "--"],
      (false, true) => &["+", "-", "!", "~", "*"],
      (false, false) => &["+", "-", "!", "~"],
    };
    let casts: &[CT] = match self.set {
      Set::All => &[TY, INT, UCHAR, TP, INTP, SP, BOOL],
      Set::Reps => &[TY, UCHAR, TP],
      Set::Few => &[TY],
    };
    let bins = if all { BIN } else if self.set == Set::Reps { BIN_R } else { &["*", "-", "<", "|"] };
    let asgs = if !self.effects { &[][..] } else if all { ASG } else if self.set == Set::Reps { ASG_R } else { &["="] };
    let posts: &[&'static str] = if !self.effects { &[] } else if all { &["++", "--"] } else { &["++"] };
    // Members, indices and calls
    let acc = if self.deref { if self.set == Set::Few { 2 } else { 5 } } else { 0 };
    let total = un.len() + casts.len() + bins.len() + asgs.len() + posts.len() + 1 + acc;
    let mut i = ch.pick(total);
    if i < un.len() {
      let op = un[i];
      let lv = matches!(op, "&" | "++" | "--");
      return E::Un(op, Box::new(self.tree(ch, n - 1, lv)));
    }
    i -= un.len();
    if i < casts.len() {
      return E::Cast(casts[i], Box::new(self.tree(ch, n - 1, false)));
    }
    i -= casts.len();
    if i < bins.len() {
      let k = ch.pick(n);
      let a = self.tree(ch, k, false);
      return E::Bin(bins[i], Box::new(a), Box::new(self.tree(ch, n - 1 - k, false)));
    }
    i -= bins.len();
    if i < asgs.len() {
      let k = ch.pick(n);
      let a = self.tree(ch, k, true);
      return E::Asg(asgs[i], Box::new(a), Box::new(self.tree(ch, n - 1 - k, false)));
    }
    i -= asgs.len();
    if i < posts.len() {
      return E::Post(posts[i], Box::new(self.tree(ch, n - 1, true)));
    }
    i -= posts.len();
    if i == 0 {
      let k = ch.pick(n);
      let l = ch.pick(n - k);
      let c = self.tree(ch, k, false);
      let a = self.tree(ch, l, false);
      return E::Cond(Box::new(c), Box::new(a), Box::new(self.tree(ch, n - 1 - k - l, false)));
    }
    match i - 1 {
      0 => {
        let k = ch.pick(n);
        let a = self.tree(ch, k, false);
        E::Index(Box::new(a), Box::new(self.tree(ch, n - 1 - k, false)))
      },
      1 => E::Call("f".into(), vec![self.tree(ch, n - 1, false)]),
      2 => {
        let e = self.tree(ch, n - 1, false);
        // A number has no members.
        match e {
          E::Id(n) if n == "__LINE__" => E::Arrow(Box::new(E::Id(n)), "f".into()),
          E::Id(_) | E::Un("*", _) | E::Index(..) | E::Dot(..) | E::Arrow(..) | E::Call(..) | E::Cond(..) | E::Asg(..) => {
            E::Dot(Box::new(e), "f".into())
          },
          e => E::Arrow(Box::new(e), "f".into()),
        }
      },
      3 => E::Arrow(Box::new(self.tree(ch, n - 1, false)), "f".into()),
      _ => {
        let k = ch.pick(n);
        let a = self.tree(ch, k, false);
        E::Call("g".into(), vec![a, self.tree(ch, n - 1 - k, false)])
      },
    }
  }
}

fn c_run(e: &E, m: &mut M, o: Order) -> Result<T, Stop> {
  C { m, sc: Default::default(), o }.val(e)
}

/// How the expression is used.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Use {
  /// The leaves are parameters of unknown type.
  Params,
  /// The leaves are names nothing is known about.
  Names,
  /// The leaves are parameters of the given type.
  Typed(&'static str),
  /// The leaves are constants; the macro is variable-like.
  Consts,
}

/// Reported errors that concern types, not the grouping.
fn type_error(e: &str) -> bool {
  ["dereference of non-pointer", "complement of float or string"].iter().any(|s| e.contains(s))
}

pub fn generate(e: &E, names: &[&str], u: Use, toks: &[String]) -> Result<Gen, String> {
  let _ = e;
  let body: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
  let mut cx = cx();
  match u {
    Use::Params => gen::func(&cx, "M", names, &body),
    Use::Names => gen::func(&cx, "M", &[], &body),
    Use::Typed(t) => {
      cx.args.push(("*".into(), "*".into(), t.into()));
      for (f, n) in [("f", 1), ("g", 2)] {
        cx.fns.push((f.into(), vec![t.to_string(); n], t.into()));
      }
      gen::func(&cx, "M", names, &body)
    },
    Use::Consts => {
      for n in names {
        cx.enums.push((n.to_string(), "N".into(), format!("N::{n}")));
      }
      Ok(gen::var(&cx, "M", &body))
    },
  }
}

/// Run generated code in every position it can be put in.
pub fn against(g: Gen, limit: usize, value: bool, c: &dyn Fn(&mut M, Order) -> Result<T, Stop>) -> Result<(u64, u64), String> {
  let none = |_: &str| None;
  let enums = |n: &str| n.strip_prefix("N::").map(|n| T::Leaf(n.to_string()));
  let unit = |r: Result<T, Stop>| if value { r } else { r.map(|_| T::Unit) };
  match g {
    Gen::Var { expr, .. } => {
      let text = expr.to_string();
      let x = gen::expr(expr)?;
      compare(limit, c, &|m| unit(Rs::new(m, 40, &enums).run_expr(&x))).map_err(|e| format!("{e}\ngenerated: {text}"))
    },
    Gen::Func { body, sig } => {
      let text = body.to_string();
      let void = matches!(sig.output, syn::ReturnType::Default);
      let s = gen::stmts(body)?;
      let unit = |r: Result<T, Stop>| if value && !void { r } else { r.map(|_| T::Unit) };
      compare(limit, &|m, o| unit(c(m, o)), &|m| unit(Rs::new(m, 40, &none).params(&sig).run_stmts(&s))).map_err(|e| format!("{e}\ngenerated: {text}"))
    },
    Gen::Macro { body, .. } => {
      let text = body.to_string();
      let body = gen::substitute(body);
      let mut r = (0, 0);
      if value {
        let x = gen::expr(body.clone())?;
        r = compare(limit, c, &|m| Rs::new(m, 40, &none).run_expr(&x)).map_err(|e| format!("as an expression: {e}\ngenerated: {text}"))?;
      }
      let s = gen::stmts(body)?;
      let r2 = compare(limit, c, &|m| unit(Rs::new(m, 40, &none).run_stmts(&s))).map_err(|e| format!("as statements: {e}\ngenerated: {text}"))?;
      Ok((r.0 ^ r2.0, r.1 + r2.1))
    },
    Gen::Err(..) => unreachable!(),
  }
}

/// Whether the value is that of a comparison, that is a `bool` in Rust.
fn boolean(e: &E) -> bool {
  match e {
    E::Bin("==" | "!=" | "<" | "<=" | ">" | ">=", ..) | E::Un("!", _) => true,
    E::Bin("&" | "|" | "^", a, b) => boolean(a) || boolean(b),
    E::Asg("=", _, b) => boolean(b),
    E::Cond(_, a, b) => boolean(a) || boolean(b),
    E::Cast(t, _) => t.rust == "bool",
    E::Un("+", e) => boolean(e),
    _ => false,
  }
}
/// Whether there is a conditional only one branch of which is a comparison, which cannot be typed in Rust.
fn mixed(e: &E, ptr: bool) -> bool {
  let mixed = |e: &E| mixed(e, ptr);
  match e {
    // There are no bitwise operators on pointers, nor in Rust on a comparison and an enumeration.
    E::Bin("&" | "|" | "^", a, b) | E::Asg(_, a, b) if ptr && boolean(a) != boolean(b) => true,
    E::Cond(c, a, b) => boolean(a) != boolean(b) || mixed(c) || mixed(a) || mixed(b),
    E::Bin(_, a, b) | E::Asg(_, a, b) | E::Index(a, b) => mixed(a) || mixed(b),
    E::Un(_, a) | E::Post(_, a) | E::Cast(_, a) | E::Dot(a, _) | E::Arrow(a, _) => mixed(a),
    E::Call(_, a) => a.iter().any(|e| mixed(e)),
    _ => false,
  }
}

fn check(ch: &mut Ch, e: &E, names: &[&str], u: Use, p: Paren) -> V {
  if mixed(e, u == Use::Consts || matches!(u, Use::Typed(t) if t.starts_with('*'))) {
    return V::Skip("only one branch of a conditional is a comparison");
  }
  let toks = print(e, p);
  ch.note(format!("{u:?}: {}", toks.join(" ")));
  let g = match guard(|| generate(e, names, u, &toks)) {
    Ok(Ok(g)) => g,
    Ok(Err(s)) | Err(s) => return V::Fail(s),
  };
  if let Gen::Err(st, er) = &g {
    return match u {
      _ if type_error(er) => V::Skip("reported as a type error"),
      Use::Consts if *st == "generate" => V::Skip("reported as not supported in a constant"),
      _ => V::Fail(format!("reported: {st}: {er}")),
    };
  }
  match guard(|| against(g, 8, true, &|m, o| c_run(e, m, o))) {
    Ok(Ok((hash, n))) => {
      ch.model_steps += n;
      V::Ok(hash)
    },
    Ok(Err(s)) | Err(s) => V::Fail(s),
  }
}

/// Expressions with logical operators.
fn logic(ch: &mut Ch, n: usize, next: &mut usize) -> E {
  if n == 0 {
    *next += 1;
    return E::Id(NAMES[(*next - 1) % NAMES.len()].into());
  }
  const OPS: &[&str] = &["&&", "||", "|", "&", "==", "<"];
  let i = ch.pick(OPS.len() + 2);
  if i == OPS.len() {
    return E::Un("!", Box::new(logic(ch, n - 1, next)));
  }
  let k = ch.pick(n);
  let a = logic(ch, k, next);
  if i < OPS.len() {
    return E::Bin(OPS[i], Box::new(a), Box::new(logic(ch, n - 1 - k, next)));
  }
  let l = ch.pick(n - k);
  let b = logic(ch, l, next);
  E::Cond(Box::new(a), Box::new(b), Box::new(logic(ch, n - 1 - k - l, next)))
}

fn has_logic(e: &E) -> bool {
  match e {
    E::Bin(op, a, b) => matches!(*op, "&&" | "||") || has_logic(a) || has_logic(b),
    E::Un(_, a) => has_logic(a),
    E::Cond(a, b, c) => has_logic(a) || has_logic(b) || has_logic(c),
    _ => false,
  }
}

/// Binary operators over names, some of which are behind `( T ) -`, which is a subtraction unless `T` is a type.
fn named(ch: &mut Ch, n: usize, next: &mut usize, left: &mut usize, consts: bool, ops: &[&'static str]) -> E {
  if n == 0 {
    *next += 1;
    let leaf = E::Id(NAMES[(*next - 1) % NAMES.len()].into());
    if *left == 0 {
      return leaf;
    }
    let un: &[&'static str] = if consts { &["-", "+"] } else { &["-", "+", "*", "&"] };
    let i = ch.pick(un.len() + 3);
    if i == 0 {
      return leaf;
    }
    *left -= 1;
    let cast = |e| E::Cast(TY, Box::new(e));
    return match i - 1 {
      0 => cast(cast(E::Un("-", Box::new(leaf)))),
      1 => cast(E::Un("-", Box::new(cast(E::Un("-", Box::new(leaf)))))),
      i => cast(E::Un(un[i - 2], Box::new(leaf))),
    };
  }
  let i = ch.pick(ops.len() + 1);
  let k = ch.pick(n);
  let a = named(ch, k, next, left, consts, ops);
  if i < ops.len() {
    return E::Bin(ops[i], Box::new(a), Box::new(named(ch, n - 1 - k, next, left, consts, ops)));
  }
  let l = ch.pick(n - k);
  let b = named(ch, l, next, left, consts, ops);
  E::Cond(Box::new(a), Box::new(b), Box::new(named(ch, n - 1 - k - l, next, left, consts, ops)))
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e"];
const USES: [Use; 5] = [Use::Params, Use::Names, Use::Typed("*mut c_int"), Use::Typed("c_int"), Use::Consts];

fn parens(ch: &mut Ch, full: bool) -> Paren {
  if full {
    Paren { inner: ch.pick(4) as u32, leaves: ch.flag() }
  } else {
    [MIN, Paren { inner: !0, leaves: false }][ch.pick(2)]
  }
}

fn c12_case(ch: &mut Ch, n: usize, set: Set, full: bool, uses: &[Use]) -> V {
  let u = uses[ch.pick(uses.len())];
  let consts = u == Use::Consts;
  let mut g = G { names: NAMES, next: 0, special: set != Set::Few, effects: !consts, deref: !consts, set };
  let e = g.tree(ch, n, false);
  let p = parens(ch, full);
  check(ch, &e, NAMES, u, p)
}

pub fn c12(t: Tier) -> Vec<Space> {
  let mut v = vec![
    Space {
      name: "small",
      bounds: "every expression of up to 2 operators, of all operators, at most one literal or sizeof leaf, every subset of inner nodes (and all leaves) parenthesised, in 5 uses".into(),
      f: |ch| {
        let n = 1 + ch.pick(2);
        c12_case(ch, n, Set::All, true, &USES)
      },
    },
    Space {
      name: "three",
      bounds: format!("every expression of 3 operators, of {} per precedence level, minimal and full parentheses, in {} uses", "one or two operators", t.q(3, 5)),
      f: |ch| {
        let uses: &[Use] = if ch.tier == Tier::Quick { &[Use::Params, Use::Typed("*mut c_int"), Use::Consts] } else { &USES };
        c12_case(ch, 3, Set::Reps, false, uses)
      },
    },
    Space {
      name: "temporaries",
      bounds: "every expression of 2 operators over the names `prev`, `value`, `ptr`, `BYTES` in 3 uses".into(),
      f: |ch| {
        let u = [Use::Params, Use::Names, Use::Typed("*mut c_int")][ch.pick(3)];
        const R: &[&[&str]] = &[&["prev", "value", "ptr"], &["value", "prev", "lhs"], &["rhs", "place", "prev"]];
        let names = R[ch.pick(R.len())];
        let mut g = G { names: &[], next: 0, special: false, effects: true, deref: true, set: Set::Reps };
        g.names = names;
        let e = g.tree(ch, 2, false);
        check(ch, &e, names, u, MIN)
      },
    },
  ];
  v.push(Space {
    name: "named",
    bounds: format!("every expression of up to {} binary and conditional operators (of 17, above two of 8), where one (two below {} operators) of the operands is a unary - + * & behind a cast to a typedef name, minimal and full parentheses, in 3 uses; the longest with 5 operators", t.q(3, 4), t.q(3, 4)),
    f: |ch| {
      let u = [Use::Params, Use::Typed("*mut c_int"), Use::Consts][ch.pick(3)];
      let n = ch.pick(ch.tier.q(3, 4) + 1);
      let max = ch.tier.q(3, 4);
      let (ops, casts): (&[&'static str], _) = if n < 3 {
        (&["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|"], 2)
      } else if n == max { (&["*", "-", "<<", "&"], 1) } else { (&["*", "-", "+", "<<", "<", "&", "|"], 2) };
      let (mut next, mut left) = (0, casts);
      let e = named(ch, n, &mut next, &mut left, u == Use::Consts, ops);
      if left == casts {
        return V::Skip("no cast");
      }
      let p = parens(ch, false);
      check(ch, &e, NAMES, u, p)
    },
  });
  v.push(Space {
    name: "logic",
    bounds: format!("every expression of up to {} operators with `&&` or `||` among them, minimal and full parentheses, in 4 uses: reported or translated", t.q(3, 4)),
    f: |ch| {
      let u = [Use::Params, Use::Typed("c_int"), Use::Names, Use::Consts][ch.pick(4)];
      let n = 1 + ch.pick(ch.tier.q(3, 4));
      let mut next = 0;
      let e = logic(ch, n, &mut next);
      if !has_logic(&e) {
        return V::Skip("no logical operator");
      }
      let p = [MIN, Paren { inner: !0, leaves: false }][ch.pick(2)];
      let toks = print(&e, p);
      ch.note(format!("{u:?}: {}", toks.join(" ")));
      let g = match guard(|| generate(&e, NAMES, u, &toks)) {
        Ok(Ok(g)) => g,
        Ok(Err(s)) | Err(s) => return V::Fail(s),
      };
      if matches!(g, Gen::Err(..)) {
        return V::Ok(0);
      }
      match guard(|| against(g, 8, true, &|m, o| c_run(&e, m, o))) {
        Ok(Ok((hash, n))) => {
          ch.model_steps += n;
          V::Ok(hash)
        },
        Ok(Err(s)) | Err(s) => V::Fail(s),
      }
    },
  });
  if t == Tier::Thorough {
    v.push(Space {
      name: "four",
      bounds: "every expression of 4 operators, of one operator per code generation case, minimal and full parentheses, 3 uses".into(),
      f: |ch| c12_case(ch, 4, Set::Few, false, &[Use::Params, Use::Typed("*mut c_int"), Use::Consts]),
    });
    v.push(Space {
      name: "three-all",
      bounds: "every expression of 3 operators, of all operators, minimal parentheses, parameters of unknown type".into(),
      f: |ch| {
        let mut g = G { names: NAMES, next: 0, special: false, effects: true, deref: true, set: Set::All };
        let e = g.tree(ch, 3, false);
        check(ch, &e, NAMES, Use::Params, MIN)
      },
    });
  }
  v
}
