//! C16: C type spellings; C24: names and types come from the context.

use crate::engine::*;
use crate::gen::{self, Cx, Gen};
use proc_macro2::TokenStream;
use std::str::FromStr;
use syn::visit::Visit;

fn squash(s: &str) -> String {
  // Spaces matter only between words.
  let mut out = String::new();
  let mut pend = false;
  for c in s.chars() {
    if c.is_whitespace() {
      pend = true;
      continue;
    }
    let w = |c: char| c.is_alphanumeric() || c == '_';
    if pend && out.chars().last().map_or(false, |l| w(l) || l == '"') && w(c) {
      out.push(' ');
    }
    pend = false;
    out.push(c);
  }
  out
}
fn show(t: &impl quote::ToTokens) -> String {
  squash(&t.to_token_stream().to_string())
}
fn norm(s: &str) -> String {
  squash(&TokenStream::from_str(s).expect("type").to_string())
}

/// The types mentioned in code: casts, `size_of`, declarations; in order.
struct Types(Vec<String>);
impl<'a> Visit<'a> for Types {
  fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
    syn::visit::visit_expr(self, &c.expr);
    self.0.push(show(&c.ty));
  }
  fn visit_generic_argument(&mut self, g: &'a syn::GenericArgument) {
    self.0.push(show(g));
  }
  fn visit_pat_type(&mut self, p: &'a syn::PatType) {
    self.0.push(show(&p.ty));
  }
  fn visit_item_static(&mut self, p: &'a syn::ItemStatic) {
    self.0.push(show(&p.ty));
    syn::visit::visit_expr(self, &p.expr);
  }
}
fn types(ts: TokenStream) -> Result<Vec<String>, String> {
  let ts = gen::substitute(ts);
  let mut t = Types(vec![]);
  match gen::expr(ts.clone()) {
    Ok(e) => t.visit_expr(&e),
    Err(_) => gen::stmts(ts)?.iter().for_each(|s| t.visit_stmt(s)),
  }
  Ok(t.0)
}

// --- C16 ---------------------------------------------------------------------------------------

const WORDS: &[&str] = &["int", "long", "unsigned", "const", "char", "short", "signed", "double", "volatile", "float", "void", "bool", "_Bool"];

/// 6.7.2 p2: the Rust name of the type the specifiers denote.
fn arithmetic(words: &[&str]) -> Option<&'static str> {
  let mut v: Vec<&str> = words.iter().filter(|w| !matches!(**w, "const" | "volatile")).copied().collect();
  v.sort();
  Some(match &v[..] {
    ["void"] => "c_void",
    ["bool"] | ["_Bool"] => "bool",
    ["char"] => "c_char",
    ["char", "signed"] => "c_schar",
    ["char", "unsigned"] => "c_uchar",
    ["short"] | ["short", "signed"] | ["int", "short"] | ["int", "short", "signed"] => "c_short",
    ["short", "unsigned"] | ["int", "short", "unsigned"] => "c_ushort",
    ["int"] | ["signed"] | ["int", "signed"] => "c_int",
    ["unsigned"] | ["int", "unsigned"] => "c_uint",
    ["long"] | ["long", "signed"] | ["int", "long"] | ["int", "long", "signed"] => "c_long",
    ["long", "unsigned"] | ["int", "long", "unsigned"] => "c_ulong",
    ["long", "long"] | ["long", "long", "signed"] | ["int", "long", "long"] | ["int", "long", "long", "signed"] => "c_longlong",
    ["long", "long", "unsigned"] | ["int", "long", "long", "unsigned"] => "c_ulonglong",
    ["float"] => "f32",
    ["double"] | ["double", "long"] => "f64",
    _ => return None,
  })
}
const PRE: &[Option<&str>] = &[None, Some("::core::ffi"), Some("libc")];
fn prefixed(t: &str, pre: Option<&str>) -> String {
  match pre {
    Some(p) if t.starts_with("c_") => format!("{p}::{t}"),
    _ => t.into(),
  }
}
/// Pointers: a pointer which is itself `const` is a `*const` one.
fn pointers(base: &str, suffix: &[&str]) -> String {
  let mut t = base.to_string();
  let mut i = suffix.iter().position(|s| *s == "*").unwrap_or(suffix.len());
  while i < suffix.len() {
    let end = suffix[i + 1..].iter().position(|s| *s == "*").map_or(suffix.len(), |j| i + 1 + j);
    t = if suffix[i + 1..end].contains(&"const") { format!("*const {t}") } else { format!("*mut {t}") };
    i = end;
  }
  norm(&t)
}

/// Where a type can be written: (function-like, tokens); `@` is the type. Gives the number of times it is mentioned.
const FORMS: &[(&str, bool, &str)] = &[
  ("sizeof", false, "sizeof ( @ )"),
  ("cast", false, "( @ ) 1"),
  ("cast of argument", true, "( @ ) x"),
  ("sizeof in function", true, "sizeof ( @ ) + x"),
  ("declaration", true, "{ @ v = x ; f ( v ) ; }"),
  ("static declaration", true, "{ static @ v = 1 ; f ( v ) ; }"),
  ("nested cast", false, "( @ ) ( long ) 1"),
];

/// `want`: the type, as printed by Rust.
fn mentioned(form: usize, ty: &[&str], cx: &Cx, want: &str) -> Result<V, String> {
  let (_, func, frame) = FORMS[form];
  let mut body: Vec<&str> = vec![];
  for t in frame.split(' ') {
    if t == "@" {
      body.extend(ty);
    } else {
      body.push(t);
    }
  }
  let is_void = want.ends_with("c_void") && !want.starts_with('*');
  if is_void && !frame.starts_with("sizeof") {
    return Ok(V::Skip("an object of type void"));
  }
  if want == "bool" && frame.starts_with("( @ )") {
    return Ok(V::Skip("a conversion to bool is a comparison (C11, C12)"));
  }
  let g = if func { gen::func(cx, "T", &["x"], &body)? } else { gen::var(cx, "T", &body) };
  let ts = match g {
    Gen::Err(s, e) => return Err(format!("expected {want}\n{s}: {e}")),
    Gen::Var { expr, ty } => {
      if frame.starts_with("( @ )") {
        match ty {
          Some(t) if squash(&t.to_string()) == want => (),
          t => return Err(format!("expected a constant of type {want}: {t:?}")),
        }
      }
      expr
    },
    Gen::Func { body, .. } | Gen::Macro { body, .. } => body,
  };
  let shown = ts.to_string();
  let got = types(ts)?;
  // `sizeof` is cast to `size_t`, a nested cast mentions its own type first.
  let skip = if frame.contains("long") { 1 } else { 0 };
  match got.get(skip) {
    Some(g) if g == want => Ok(V::Ok(h(&(want, form)))),
    g => Err(format!("C:    {want}\nRust: {g:?}\ngenerated: {shown}")),
  }
}

fn spelling(ch: &mut Ch, ty: &[&str], base: Option<&str>, suffix: &[&str], form: usize, pre: usize) -> V {
  ch.note(format!("type {}  in {}  prefix {:?}", ty.join(" "), FORMS[form].2, PRE[pre]));
  let Some(base) = base else { return V::Skip("not a C type") };
  let want = pointers(&prefixed(base, PRE[pre]), suffix);
  let cx = Cx { ffi: PRE[pre].map(|s| s.into()), fns: vec![("f".into(), vec!["c_int".into()], "c_int".into())], ..Cx::default() };
  match mentioned(form, ty, &cx, &want) {
    Ok(v) => v,
    Err(e) => V::Fail(e),
  }
}

/// A null pointer or an address of the type the cast names.
fn null(ch: &mut Ch) -> V {
  let base = ch.of(&["int", "char", "void", "const char", "unsigned long const", "T"]);
  let max = ch.tier.q(4, 5);
  let n = 1 + ch.pick(max);
  let suffix: Vec<&str> = (0..n).map(|_| ch.of(&["*", "const", "volatile"])).collect();
  if !suffix.contains(&"*") {
    return V::Skip("not a pointer");
  }
  let val = ch.of(&["0", "0L", "( 0 )", "0x0", "1 - 1", "( int ) 0", "1", "- 1", "( void * ) 0", "( void * const ) 0", "x"]);
  let pre = PRE[ch.pick(3)];
  let tr = [None, Some("::core"), Some("a::b")][ch.pick(3)];
  let mut w: Vec<&str> = base.split(' ').chain(suffix.iter().copied()).collect();
  let name = if base == "T" { "T" } else { arithmetic(&base.split(' ').collect::<Vec<_>>()).unwrap() };
  let want = pointers(&prefixed(name, pre), &suffix);
  let c = format!("( {} ) {}", w.join(" "), if val == "1 - 1" { "( 1 - 1 )" } else { val });
  let body = match ch.pick(3) {
    0 => c,
    1 => format!("{{ g ( {c} ) ; }}"),
    _ => {
      w.push("v");
      format!("{{ {} = {c} ; g ( v ) ; }}", w.join(" "))
    },
  };
  let cx = Cx {
    ffi: pre.map(|s| s.into()),
    tr: tr.map(|s| s.into()),
    fns: vec![("g".into(), vec![want.clone()], "c_int".into())],
    types: vec![("T".into(), "T".into())],
    args: vec![("T".into(), "x".into(), "usize".into())],
    ..Cx::default()
  };
  ch.note(format!("{body}  prefixes {pre:?} {tr:?}"));
  let toks: Vec<&str> = body.split(' ').collect();
  let stmt = body.starts_with('{');
  let func = stmt || val == "x" || ch.flag();
  let g = match if func { gen::func(&cx, "T", if val == "x" { &["x"] } else { &[] }, &toks) } else { Ok(gen::var(&cx, "T", &toks)) } {
    Ok(g) => g,
    Err(e) => return V::Fail(e),
  };
  let found = |e: &syn::Expr| -> Result<(), String> {
    let mut e = e;
    loop {
      match e {
        syn::Expr::Paren(p) => e = &p.expr,
        syn::Expr::MethodCall(m) if m.method == "into" => e = &m.receiver,
        _ => break,
      }
    }
    match e {
      syn::Expr::Cast(c) if show(&c.ty) == want => Ok(()),
      syn::Expr::Call(c) if c.args.is_empty() => {
        let f = show(&c.func);
        let null = |n: &str| f == tr.map_or(format!("ptr::{n}"), |t| format!("{t}::ptr::{n}"));
        // A mutable pointer is coerced to a constant one, but not the other way.
        match null("null_mut") || null("null") && want.starts_with("*const") {
          true => Ok(()),
          false => Err(format!("{f}() is no {want}")),
        }
      },
      e => Err(format!("no {want}: {}", show(e))),
    }
  };
  let stmts = |ts: TokenStream| -> Result<(), String> {
    let ts = gen::substitute(ts);
    let ss = match gen::expr(ts.clone()) {
      Ok(e) if !body.starts_with('{') => return found(&e),
      Ok(syn::Expr::Block(b)) => b.block.stmts,
      Ok(syn::Expr::Unsafe(b)) => b.block.stmts,
      Ok(e) => vec![syn::Stmt::Expr(e, None)],
      Err(_) => gen::stmts(ts)?,
    };
    let first = match &ss[0] {
      syn::Stmt::Expr(syn::Expr::Block(b), _) => &b.block.stmts[0],
      s => s,
    };
    match first {
      syn::Stmt::Local(l) => match (&l.pat, &l.init) {
        (syn::Pat::Type(p), Some(i)) if show(&p.ty) == want => found(&i.expr),
        _ => Err(format!("declares no {want}: {}", show(l))),
      },
      syn::Stmt::Expr(syn::Expr::Call(c), _) if c.args.len() == 1 => found(&c.args[0]),
      s => Err(format!("unexpected: {}", show(&s))),
    }
  };
  let r = match g {
    Gen::Err(s, e) => Err(format!("expected {want}\n{s}: {e}")),
    Gen::Var { expr, ty } => match ty {
      Some(t) if squash(&t.to_string()) == want => gen::expr(expr).and_then(|e| found(&e)),
      t => Err(format!("expected a constant of type {want}: {t:?}")),
    },
    Gen::Func { sig, body: b } if !body.starts_with('{') => match &sig.output {
      syn::ReturnType::Type(_, t) if show(t) == want => gen::expr(b).and_then(|e| found(&e)),
      _ => Err(format!("expected the result {want}: {}", show(&sig))),
    },
    Gen::Macro { body, .. } if !stmt => gen::expr(gen::substitute(body)).and_then(|e| found(&e)),
    Gen::Func { body, .. } | Gen::Macro { body, .. } => stmts(body),
  };
  match r {
    Ok(()) => V::Ok(h(&want)),
    Err(e) => V::Fail(e),
  }
}

fn from_str(ch: &mut Ch, ty: &str, base: Option<&str>, suffix: &[&str]) -> V {
  ch.note(format!("{ty:?}.parse::<Type>()"));
  match (cmacro::Type::from_str(ty), base) {
    (Ok(t), Some(base)) => {
      let want = pointers(base, suffix);
      let got = t.to_rust_ty(&&Cx::default()).map(|t| show(&t));
      if got.as_deref() == Some(&want) {
        V::Ok(h(&want))
      } else {
        V::Fail(format!("C:    {want}\nRust: {got:?}"))
      }
    },
    (Err(e), Some(_)) => V::Fail(format!("rejected: {e:?}")),
    (Ok(t), None) => V::Fail(format!("not a C type, but parsed as {t:?}")),
    (Err(_), None) => V::Ok(0),
  }
}

pub fn c16(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "specifiers", bounds: format!("every sequence of up to {} of the {} specifiers and qualifiers, in {} positions", t.q(4, 5), WORDS.len(), FORMS.len()), f: |ch| {
      let max = ch.tier.q(4, 5);
      let n = 1 + ch.pick(max);
      let w: Vec<&str> = (0..n).map(|_| ch.of(WORDS)).collect();
      let base = arithmetic(&w);
      if base.is_none() {
        return V::Skip("not a C type");
      }
      let form = ch.pick(if n > 3 { 2 } else { FORMS.len() });
      let pre = ch.pick(if n > 3 { 1 } else { 3 });
      spelling(ch, &w, base, &[], form, pre)
    } },
    Space { name: "orders", bounds: format!("every order of the specifiers of each arithmetic type with up to {} qualifiers", t.q(2, 3)), f: |ch| {
      let all: &[&[&str]] = &[&["unsigned", "long", "long", "int"], &["signed", "long", "long", "int"], &["long", "long", "int"], &["unsigned", "short", "int"], &["signed", "char"], &["unsigned", "long"], &["long", "double"], &["signed", "long", "int"]];
      let mut left: Vec<&str> = all[ch.pick(all.len())].to_vec();
      let max = ch.tier.q(3, 4);
      for _ in 0..ch.pick(max) {
        left.push(ch.of(&["const", "volatile"]));
      }
      let mut w = vec![];
      while !left.is_empty() {
        // Equal words need no order.
        let mut d = left.clone();
        d.sort();
        d.dedup();
        let x = d[ch.pick(d.len())];
        let i = left.iter().position(|y| *y == x).unwrap();
        left.remove(i);
        w.push(x);
      }
      let form = ch.pick(2);
      let base = arithmetic(&w);
      spelling(ch, &w, base, &[], form, 0)
    } },
    Space { name: "pointers", bounds: format!("12 spellings with every sequence of up to {} of * const volatile, in {} positions, 3 prefixes", t.q(4, 6), FORMS.len()), f: |ch| {
      let all: &[&[&str]] = &[&["int"], &["unsigned"], &["const", "char"], &["char", "const"], &["long", "unsigned"], &["void"], &["const", "void"], &["double"], &["long", "const", "double"], &["float", "volatile"], &["bool"], &["long", "long"]];
      let b = all[ch.pick(all.len())];
      let max = ch.tier.q(5, 7);
      let n = ch.pick(max);
      let suffix: Vec<&str> = (0..n).map(|_| ch.of(&["*", "const", "volatile"])).collect();
      let mut w = b.to_vec();
      w.extend(&suffix);
      let form = ch.pick(FORMS.len());
      let pre = ch.pick(if ch.tier == Tier::Quick && n > 3 { 1 } else { 3 });
      let base = arithmetic(b);
      spelling(ch, &w, base, &suffix, form, pre)
    } },
    Space { name: "text", bounds: format!("Type::from_str of every sequence of up to {} of 16 words, stars, brackets and names, spaced in 3 ways", t.q(4, 5)), f: |ch| {
      let words = ["int", "long", "unsigned", "const", "*", "char", "double", "void", "volatile", "signed", "short", "float", "1", "(", ",", "+"];
      let max = ch.tier.q(4, 5);
      let n = ch.pick(max + 1);
      let w: Vec<&str> = (0..n).map(|_| ch.of(&words)).collect();
      let sep = ch.pick(3);
      let mut text = String::new();
      for (i, x) in w.iter().enumerate() {
        let glue = sep == 1 && (*x == "*" || i > 0 && w[i - 1] == "*");
        if i > 0 && !glue {
          text.push_str(if sep == 2 { "  \t" } else { " " });
        }
        text.push_str(x);
      }
      let k = w.iter().position(|x| *x == "*").unwrap_or(w.len());
      let ok = w[k..].iter().all(|x| matches!(*x, "*" | "const" | "volatile"));
      let base = if ok { arithmetic(&w[..k]) } else { None };
      from_str(ch, &text, base, &w[k..])
    } },
    Space { name: "null", bounds: format!("integers cast to 6 types with every sequence of up to {} of * const volatile that has a pointer: as constant, result, argument and initialiser of a function, chosen and cast again, 3 prefixes: the value is of the type that the cast names", t.q(4, 5)), f: null },
    Space { name: "names", bounds: format!("a typedef name or struct, qualified and with up to 2 pointers, which the context resolves to each of {} Rust types, in {} positions, 3 prefixes", RUST.len(), FORMS.len()), f: names },
    Space { name: "functions", bounds: "declarations of a function: static or not, 7 types of result with up to 2 pointers, (void), no or up to 2 parameters of these types, 3 prefixes".into(), f: functions },
    Space { name: "read_back", bounds: format!("the type of an argument, result, enum variant or field given as Rust syntax: {} types, 3 prefixes", RUST.len()), f: read_back },
  ]
}

/// (type as Rust syntax)
const RUST: &[&str] = &[
  "c_int", "::core::ffi::c_int", "libc::c_int", "c_void", "::core::ffi::c_void", "u8", "u16", "u32", "i32", "u64", "f32", "f64", "bool", "usize", "my::ty", "::a::b", "T2", "*mut u8", "*const c_char",
  "*const ::core::ffi::c_char", "*const *mut ::a::b", "*mut *const *mut T2", "r#type", "a::r#fn", "Option<u8>", "a::B<C>::D", "[u8; 4]", "&'static u8", "fn(u8) -> u8", "Option<unsafe extern \"C\" fn(u8) -> u8>", "f128", "(u8, u16)", "*mut Option<T2>", "*mut [u8; 4]",
  "self::x", "crate::x::y", "c_ulonglong", "i8", "c_schar", "libc::c_long", "libc::other", "<A as B>::C", "super::T", "char", "c_char",
  "core::ffi::c_int", "*mut core::ffi::c_char", "::libc::c_uchar", "ffi::c_int", "a::core::ffi::c_int", "::core::ffi", "libc", "::core::ffi::x::c_int", "core::ffi::c_void", "*const ::libc::c_void", "c_int::c_int",
];

fn read(cx: &Cx, want: &str, got: Result<Gen, String>, pick: impl Fn(&Gen) -> Option<String>) -> V {
  match got {
    Err(e) => V::Fail(e),
    Ok(Gen::Err(_, e)) => {
      // Anything but a path or a pointer may be refused, but never changed.
      let t: syn::Type = syn::parse_str(want).unwrap();
      fn simple(t: &syn::Type) -> bool {
        match t {
          syn::Type::Ptr(p) => simple(&p.elem),
          syn::Type::Path(p) => p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_empty()),
          _ => false,
        }
      }
      if simple(&t) {
        V::Fail(format!("expected {want}: {e}"))
      } else {
        V::Ok(1)
      }
    },
    Ok(g) => match pick(&g) {
      Some(t) if t == norm(want) => V::Ok(h(&(t, &cx.ffi))),
      t => V::Fail(format!("context: {want}\nRust:    {t:?}\n{g:?}")),
    },
  }
}

fn names(ch: &mut Ch) -> V {
  let rust = RUST[ch.pick(RUST.len())];
  let spell: &[&str] = [&["T"][..], &["struct", "T"], &["const", "T"], &["T", "const"], &["T", "volatile"], &["const", "struct", "T"], &["struct", "T", "const"]][ch.pick(7)];
  let n = ch.pick(4);
  let suffix: Vec<&str> = (0..n).map(|_| ch.of(&["*", "const"])).collect();
  let form = ch.pick(FORMS.len());
  let pre = ch.pick(3);
  let mut ty = spell.to_vec();
  ty.extend(&suffix);
  ch.note(format!("type {}  in {}  with T = {rust}  prefix {:?}", ty.join(" "), FORMS[form].2, PRE[pre]));
  let mut cx = Cx { ffi: PRE[pre].map(|s| s.into()), fns: vec![("f".into(), vec!["c_int".into()], "c_int".into())], ..Cx::default() };
  cx.types.push(("T".into(), rust.into()));
  let pointer = rust.starts_with('*');
  if pointer && (spell.contains(&"const") || spell.contains(&"volatile") || suffix.first() == Some(&"const")) {
    return V::Skip("a qualified pointer type of the context");
  }
  let void = rust.ends_with("c_void");
  let want = pointers(rust, &suffix);
  // A struct named as such may be refused where it is no pointer.
  let (_, func, frame) = FORMS[form];
  if frame.starts_with("( @ )") && (void || rust == "bool" || rust == "()") && !suffix.contains(&"*") {
    return V::Skip("a conversion to void or bool");
  }
  let mut body: Vec<&str> = vec![];
  for t in frame.split(' ') {
    if t == "@" {
      body.extend(&ty);
    } else {
      body.push(t);
    }
  }
  let g = if func { gen::func(&cx, "T0", &["x"], &body) } else { Ok(gen::var(&cx, "T0", &body)) };
  let skip = if frame.contains("long") { 1 } else { 0 };
  read(&cx, &want, g, |g| match g {
    Gen::Var { expr, .. } => types(expr.clone()).ok()?.get(skip).cloned(),
    Gen::Func { body, .. } | Gen::Macro { body, .. } => types(body.clone()).ok()?.get(skip).cloned(),
    _ => None,
  })
}

fn functions(ch: &mut Ch) -> V {
  let all: &[(&[&str], &str)] = &[(&["void"], "c_void"), (&["int"], "c_int"), (&["const", "char"], "c_char"), (&["unsigned", "long"], "c_ulong"), (&["bool"], "bool"), (&["double"], "f64"), (&["T"], "m::U")];
  let pre = ch.pick(3);
  let cx = Cx { ffi: PRE[pre].map(|s| s.into()), types: vec![("T".into(), "m::U".into())], ..Cx::default() };
  let ty = |ch: &mut Ch, void: bool| {
    let (t, r) = if void { all[ch.pick(all.len())] } else { all[1 + ch.pick(all.len() - 1)] };
    let n = ch.pick(3);
    let mut t: Vec<&str> = t.to_vec();
    t.extend(std::iter::repeat("*").take(n));
    (t, norm(&format!("{}{}", "*mut ".repeat(n), prefixed(r, PRE[pre]))))
  };
  let mut body = vec![];
  if ch.flag() {
    body.push("static");
  }
  let (r, mut ret) = ty(ch, true);
  body.extend(r);
  body.extend(["fn0", "("]);
  let mut want = vec![];
  match ch.pick(4) {
    0 => {},
    1 => body.push("void"),
    n => {
      for i in 0..n - 1 {
        let (t, r) = ty(ch, false);
        if i > 0 {
          body.push(",");
        }
        body.extend(t);
        body.push(["a", "b"][i]);
        want.push(format!("{}:{r}", ["a", "b"][i]));
      }
    },
  }
  body.push(")");
  if ch.flag() {
    body.push(";");
  } else if body[0] == "T" && body[1] == "*" || body.starts_with(&["static", "T", "*"]) {
    return V::Skip("could be a multiplication");
  }
  ch.note(format!("{}  prefix {:?}", body.join(" "), PRE[pre]));
  if ret == prefixed("c_void", PRE[pre]) {
    ret = "()".into();
  }
  let g = match gen::func(&cx, "M", &[], &body) {
    Ok(Gen::Macro { body, .. } | Gen::Func { body, .. }) => body,
    g => return V::Fail(format!("{g:?}")),
  };
  let text = g.to_string();
  // A statement may be followed by a semicolon.
  let mut toks: Vec<proc_macro2::TokenTree> = g.into_iter().collect();
  if matches!(toks.last(), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == ';') {
    toks.pop();
  }
  let m = match syn::parse2::<syn::ItemForeignMod>(toks.into_iter().collect()) {
    Ok(m) => m,
    Err(e) => return V::Fail(format!("{e}: {text}")),
  };
  let [syn::ForeignItem::Fn(f)] = &m.items[..] else { return V::Fail(format!("not a function: {text}")) };
  let got: Vec<String> = f.sig.inputs.iter().map(show).collect();
  let out = match &f.sig.output {
    syn::ReturnType::Default => "()".to_string(),
    syn::ReturnType::Type(_, t) => show(t),
  };
  let abi = m.abi.name.as_ref().map(|n| n.value());
  let want: Vec<String> = want.iter().map(|w| norm(w)).collect();
  if f.sig.ident == "fn0" && got == want && out == ret && abi.as_deref() == Some("C") && f.sig.variadic.is_none() {
    V::Ok(h(&text))
  } else {
    V::Fail(format!("C: fn0({want:?}) -> {ret}\nRust: {text}"))
  }
}

fn read_back(ch: &mut Ch) -> V {
  let rust = RUST[ch.pick(RUST.len())];
  let form = ch.pick(7);
  let pre = ch.pick(3);
  ch.note(format!("{rust} given by the context as {}  prefix {:?}", ["argument type", "result of a function", "argument and result", "enum variant", "type of a field", "pointee of an argument", "argument through a cast"][form], PRE[pre]));
  let mut cx = Cx { ffi: PRE[pre].map(|s| s.into()), ..Cx::default() };
  let int = prefixed("c_int", PRE[pre]);
  let input = |g: &Gen| match g {
    Gen::Func { sig, .. } => match sig.inputs.first() {
      Some(syn::FnArg::Typed(t)) => Some(show(&t.ty)),
      _ => None,
    },
    _ => None,
  };
  let output = |g: &Gen| match g {
    Gen::Func { sig, .. } => match &sig.output {
      syn::ReturnType::Type(_, t) => Some(show(t)),
      _ => None,
    },
    _ => None,
  };
  let fun = |cx: &Cx, p: &[&str], b: &[&str]| gen::func(cx, "M", p, b);
  match form {
    0 => {
      cx.args.push(("M".into(), "x".into(), rust.into()));
      let g = fun(&cx, &["x"], &["x"]);
      read(&cx, rust, g, input)
    },
    1 => {
      cx.fns.push(("f".into(), vec![], rust.into()));
      if rust == "()" || rust.ends_with("c_void") {
        return V::Skip("no result");
      }
      let g = fun(&cx, &[], &["f", "(", ")"]);
      read(&cx, rust, g, output)
    },
    2 => {
      if rust.ends_with("c_void") {
        return V::Skip("an object of type void");
      }
      cx.args.push(("M".into(), "x".into(), rust.into()));
      let g = fun(&cx, &["x"], &["(", "x", ")"]);
      read(&cx, rust, g, output)
    },
    3 => {
      cx.enums.push(("E".into(), rust.into(), "a::E".into()));
      let g = Ok(gen::var(&cx, "M", &["E"]));
      read(&cx, rust, g, |g| match g {
        Gen::Var { ty: Some(t), .. } => Some(squash(&t.to_string())),
        _ => None,
      })
    },
    4 => {
      if rust.ends_with("c_void") {
        return V::Skip("an object of type void");
      }
      cx.args.push(("M".into(), "x".into(), "S".into()));
      cx.types.push(("S".into(), "S".into()));
      cx.fields.push(("S".into(), "a".into(), rust.into()));
      let g = fun(&cx, &["x"], &["x", ".", "a"]);
      read(&cx, rust, g, output)
    },
    5 => {
      if rust.ends_with("c_void") {
        return V::Skip("an object of type void");
      }
      cx.args.push(("M".into(), "x".into(), format!("*mut {rust}")));
      let g = fun(&cx, &["x"], &["*", "x"]);
      read(&cx, rust, g, output)
    },
    _ => {
      if rust == "bool" || rust.ends_with("c_void") {
        return V::Skip("a conversion to bool is a comparison");
      }
      cx.types.push(("T".into(), rust.into()));
      cx.args.push(("M".into(), "x".into(), int));
      let g = fun(&cx, &["x"], &["(", "T", ")", "x"]);
      read(&cx, rust, g, output)
    },
  }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C16" => vec![
      "a pointer which is itself const is *const, any other pointer *mut, as the crate documents by its tests; long double is f64",
      "a Rust type other than a path without generic arguments or a pointer to one may be refused, but not changed",
    ],
    _ => vec![],
  }
}
