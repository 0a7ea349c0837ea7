//! C20, C21, C22: generating the same macro twice, with a difference which must not (or only in one way) be visible.

use crate::corpus::{self, *};
use crate::engine::*;
use crate::gen::Cx;
use cmacro::ast::Comment;
use cmacro::{FnMacro, MacroSet, MacroToken, VarMacro};
use proc_macro2::{TokenStream, TokenTree};

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C20" => vec![
      "the context answers with types that carry the FFI prefix, as its documentation demands",
      "library names are those of the code generator: ptr, mem, arch, ffi, f32::, f64:: and the macros concat, stringify, line, file, concat_idents; which `mem` macro offsetof becomes is left open",
      "without a target everything is available; a prerelease of a version has what the version has",
    ],
    "C21" => vec!["contexts answer the same each time they are asked"],
    "C22" => vec!["comments are whole tokens, as the crate's users pass them"],
    _ => vec![],
  }
}

fn flat(ts: TokenStream, o: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (a, b) = match g.delimiter() {
          proc_macro2::Delimiter::Parenthesis => ("(", ")"),
          proc_macro2::Delimiter::Brace => ("{", "}"),
          proc_macro2::Delimiter::Bracket => ("[", "]"),
          proc_macro2::Delimiter::None => ("", ""),
        };
        o.push(a.into());
        flat(g.stream(), o);
        o.push(b.into());
      },
      t => o.push(t.to_string()),
    }
  }
}
fn toks(s: &str) -> Vec<String> {
  let mut o = vec![];
  flat(s.parse().expect("tokens"), &mut o);
  o
}

/// Everything the generated code consists of, or the error.
fn generate(s: &Src, cx: &Cx) -> Result<Vec<String>, String> {
  let mut m = MacroSet::new();
  let body = s.toks();
  let mut o = vec![];
  if s.func {
    m.define_fn_macro("M", &s.params, &body);
    let (a, t) = m.expand_fn_macro("M").map_err(|e| format!("expand {e:?}"))?;
    let mut f = FnMacro::parse("M", &a, &t).map_err(|e| format!("parse {e:?}"))?;
    flat(f.generate(cx).map_err(|e| format!("generate {e:?}"))?, &mut o);
  } else {
    m.define_var_macro("M", &body);
    let t = m.expand_var_macro("M").map_err(|e| format!("expand {e:?}"))?;
    let mut v = VarMacro::parse("M", &t).map_err(|e| format!("parse {e:?}"))?;
    let (e, t) = v.generate(cx).map_err(|e| format!("generate {e:?}"))?;
    flat(e, &mut o);
    o.push("type".into());
    match t {
      Some(t) => flat(t, &mut o),
      None => o.push("unknown".into()),
    }
  }
  Ok(o)
}
fn gen(s: &Src, cx: &Cx) -> Result<Result<Vec<String>, String>, String> {
  guard(|| generate(s, cx))
}

// --- C20 ---------------------------------------------------------------------------------------

const FFI: &[Option<&str>] = &[None, Some("::core::ffi"), Some("libc"), Some("a::b::c")];
const TR: &[Option<&str>] = &[None, Some("::core"), Some("std"), Some("x::y")];

/// Prefix every name of a C type and of the library.
fn prefix(t: &[String], ffi: Option<&str>, tr: Option<&str>) -> Vec<String> {
  let ffi = ffi.map(|p| toks(&format!("{p}::"))).unwrap_or_default();
  let ffi_mod = tr.map(|p| toks(&format!("{p}::ffi::"))).unwrap_or_default();
  let tr = tr.map(|p| toks(&format!("{p}::"))).unwrap_or_default();
  let mut o = vec![];
  for (i, x) in t.iter().enumerate() {
    let at = |k: usize| t.get(i + k).map(|s| s.as_str());
    let start = !(i > 1 && t[i - 1] == ":" && t[i - 2] == ":");
    if start {
      if x.starts_with("c_") && !x.ends_with("_x") {
        o.extend(ffi.iter().cloned());
      } else if matches!(x.as_str(), "ptr" | "mem" | "arch" | "f32" | "f64") && at(1) == Some(":") && at(2) == Some(":")
        || matches!(x.as_str(), "concat" | "stringify" | "line" | "file" | "concat_idents" | "format") && at(1) == Some("!")
      {
        o.extend(tr.iter().cloned());
      } else if x == "CStr" {
        o.extend(ffi_mod.iter().cloned());
      }
    }
    o.push(x.clone());
  }
  o
}
fn differ(what: &str, a: &Result<Vec<String>, String>, b: &Result<Vec<String>, String>) -> V {
  let show = |r: &Result<Vec<String>, String>| match r {
    Ok(t) => t.join(" "),
    Err(e) => format!("error: {e}"),
  };
  V::Fail(format!("{what}\nexpected: {}\ngot:      {}", show(a), show(b)))
}

fn c20_prefix(ch: &mut Ch) -> V {
  let (l, f) = ch.tier.q((FEW, FRAMES.len()), (LEAVES.len(), FRAMES.len()));
  let s = corpus::src(ch, l, f);
  let bits = [31, 0, 2, 9][ch.pick(4)];
  let target = [None, Some("1.50.0"), Some("1.16.0")][ch.pick(3)];
  let (ffi, tr) = match (ch.tier, ch.pick(ch.tier.q(4, 15))) {
    (Tier::Quick, i) => [(FFI[1], TR[1]), (FFI[3], None), (None, TR[3]), (FFI[2], TR[2])][i],
    (_, i) => (FFI[(i + 1) % 4], TR[(i + 1) / 4]),
  };
  compare_prefix(ch, &s, bits, target, ffi, tr)
}
fn compare_prefix(ch: &mut Ch, s: &Src, bits: u32, target: Option<&str>, ffi: Option<&str>, tr: Option<&str>) -> V {
  ch.note(format!("{}  known {bits:05b} target {target:?}: prefixes {ffi:?} {tr:?} against none", s.text()));
  let plain = match gen(s, &context(bits, None, None, target)) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  let got = match gen(s, &context(bits, ffi, tr, target)) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  ch.model_steps += 1;
  match (&plain, &got) {
    (Err(_), Err(_)) => V::Skip("reported as an error with and without prefixes"),
    (Ok(p), Ok(g)) => {
      let want = prefix(p, ffi, tr);
      if want == *g { V::Ok(h(&want)) } else { differ("with prefixes", &Ok(want), &got) }
    },
    _ => differ("with prefixes", &plain, &got),
  }
}

/// What the version has: (no `'static` needed, `CStr` constants, `c_size_t`)
fn features(target: Option<&str>) -> (bool, bool, bool) {
  let Some(t) = target else { return (true, true, true) };
  let nightly = t.contains("nightly");
  let mut it = t.split('.');
  let maj = it.next().and_then(|s| s.parse::<u64>().ok());
  let min = it.next().and_then(|s| s.split(['-', '+']).next().unwrap().parse::<u64>().ok());
  match (maj, min) {
    (Some(1), Some(m)) => (m >= 17, m >= 59, nightly),
    (Some(m), Some(_)) => (m > 1, m > 1, nightly),
    _ => (true, true, nightly),
  }
}
/// Change the code for the newest version into that for an older one.
fn downgrade(t: &[String], (elide, cstr, size): (bool, bool, bool), tr: Option<&str>) -> Result<Vec<String>, String> {
  let p = tr.map(|p| toks(&format!("{p}::ffi::"))).unwrap_or_default();
  let mut t = t.to_vec();
  if !cstr {
    // `{ #[allow(unsafe_code)] unsafe { CStr::from_bytes_with_nul_unchecked(b"") } } type & CStr`
    let mut head = toks("#[allow(unsafe_code)]");
    head.insert(0, "{".into());
    head.extend(["unsafe".into(), "{".into()]);
    head.extend(p.iter().cloned());
    head.extend(["CStr", ":", ":", "from_bytes_with_nul_unchecked", "("].map(String::from));
    let n = head.len();
    if let Some(i) = (0..t.len()).find(|i| t[*i..].starts_with(&head)) {
      let lit = t[i + n].clone();
      let len = match syn::parse_str::<syn::LitByteStr>(&lit) {
        Ok(b) => b.value().len(),
        Err(e) => return Err(format!("{lit}: {e}")),
      };
      t.splice(i..i + n + 4, [lit]);
      let mut ty = vec!["type".to_string(), "&".into()];
      ty.extend(p.iter().cloned());
      ty.push("CStr".into());
      match (0..t.len()).find(|i| t[*i..].starts_with(&ty)) {
        Some(i) => {
          t.splice(i..i + ty.len(), ["type".into(), "&".into(), "[".into(), "u8".into(), ";".into(), len.to_string(), "]".to_string()]);
        },
        None => return Err("a string constant of another type".into()),
      }
    }
    if t.iter().any(|x| x == "CStr") {
      return Err("CStr is used in another way".into());
    }
  }
  if !size {
    while let Some(i) = t.iter().position(|x| x == "c_size_t") {
      let mut j = i;
      while j >= 2 && t[j - 1] == ":" && t[j - 2] == ":" {
        j -= 2;
        if j >= 1 && t[j - 1].chars().next().map_or(false, |c| c.is_alphabetic()) {
          j -= 1;
        }
      }
      t.splice(j..=i, ["usize".to_string()]);
    }
  }
  if !elide {
    // In the type of a constant.
    let mut i = 1;
    while i < t.len() {
      if t[i] == "&" && (t[i - 1] == ":" || t[i - 1] == "type") {
        t.splice(i + 1..i + 1, ["'".to_string(), "static".into()]);
      }
      i += 1;
    }
  }
  Ok(t)
}

fn version(ch: &mut Ch, s: &Src, bits: u32, target: Option<&str>, pre: (Option<&str>, Option<&str>)) -> V {
  ch.note(format!("{}  known {bits:05b} prefixes {pre:?}: target {target:?} against none", s.text()));
  let newest = match gen(s, &context(bits, pre.0, pre.1, None)) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  let got = match gen(s, &context(bits, pre.0, pre.1, target)) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  ch.model_steps += 1;
  match (&newest, &got) {
    (Err(_), Err(_)) => V::Skip("reported as an error for every version"),
    (Ok(n), Ok(g)) => match downgrade(n, features(target), pre.1) {
      Ok(want) if want == *g => V::Ok(h(&(want, features(target)))),
      Ok(want) => differ("for the version", &Ok(want), &got),
      Err(e) => V::Fail(format!("{e}\n{}", n.join(" "))),
    },
    _ => differ("for the version", &newest, &got),
  }
}

pub fn c20(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "prefixes", bounds: format!("{} frames (expressions, statements, declarations, assembly) with every combination of {} leaves in up to two places, {} pairs of prefixes, 4 contexts, 3 targets", FRAMES.len(), t.q(FEW, LEAVES.len()), t.q(4, 15)), f: c20_prefix },
    Space { name: "leaves", bounds: format!("every one of {} leaves in every frame with one place, every pair of {} FFI and {} trait prefixes", LEAVES.len() + FN_LEAVES.len(), FFI.len(), TR.len()), f: |ch| {
      let s = one(ch);
      let ffi = FFI[ch.pick(FFI.len())];
      let tr = TR[ch.pick(TR.len())];
      let bits = [31, 30][ch.pick(2)];
      compare_prefix(ch, &s, bits, None, ffi, tr)
    } },
    Space { name: "versions", bounds: format!("every leaf in every frame with one place with targets 1.0 to 1.{}, two and three components, and prereleases", t.q(20, 99)), f: |ch| {
      let s = one(ch);
      let t = version_text(ch, ch.tier.q(2, 4));
      version(ch, &s, 31, t.as_deref(), (None, None))
    } },
    Space { name: "version_texts", bounds: "string literals of every encoding and sizeof, in a variable-like and a function-like macro, with all of 1.0 to 1.120 and 2.0, patch none, 0, 1 and 99, release, -nightly, -beta.2 and build metadata, nightly, beta, stable, and prefixes".into(), f: |ch| {
      let func = ch.flag();
      let leaf = ch.of(&["\"ab\"", "\"a\\0b\"", "u8\"s\"", "u\"s\"", "U\"s\"", "\"\\xff\"", "L\"w\"", "sizeof ( int )", "f ( \"s\" )", "\"s\" __FILE__", "sizeof ( T ) + 1"]);
      let s = Src { func, params: vec![], body: leaf.split(' ').map(String::from).collect() };
      let t = version_text(ch, 4);
      let pre = [(None, None), (Some("libc"), Some("::core"))][ch.pick(2)];
      version(ch, &s, 31, t.as_deref(), pre)
    } },
  ]
}
fn one(ch: &mut Ch) -> Src {
  let func = ch.flag();
  let ok: Vec<&str> = FRAMES.iter().filter(|f| (func || f.0) && f.1.matches('@').count() == 1).map(|f| f.1).collect();
  let frame = ok[ch.pick(ok.len())];
  let mut all: Vec<&str> = LEAVES.to_vec();
  if func {
    all.extend(FN_LEAVES);
  }
  let leaf = all[ch.pick(all.len())];
  let body: Vec<String> = frame.replace('@', leaf).split(' ').map(String::from).collect();
  let params = if !func {
    vec![]
  } else if leaf == "__VA_ARGS__" {
    vec!["x", "y", "..."]
  } else {
    vec!["x", "y"]
  };
  Src { func, params, body }
}
fn version_text(ch: &mut Ch, depth: usize) -> Option<String> {
  let special: &[Option<&str>] = &[None, Some("nightly"), Some("stable"), Some("beta"), Some("")];
  let minors: Vec<String> = match depth {
    2 => [0, 16, 17, 18, 58, 59, 60].iter().map(|m| format!("1.{m}")).collect(),
    _ => (0..=120).map(|m| format!("1.{m}")).chain(["2.0".to_string()]).collect(),
  };
  let i = ch.pick(special.len() + minors.len());
  if i < special.len() {
    return special[i].map(String::from);
  }
  let v = &minors[i - special.len()];
  let patch = ["", ".0", ".1", ".99"][ch.pick(if depth == 2 { 3 } else { 4 })];
  let pre = if patch.is_empty() { "" } else { ["", "-nightly", "-beta.2", "+b1", "-nightly+2022-01-01"][ch.pick(if depth == 2 { 2 } else { 5 })] };
  Some(format!("{v}{patch}{pre}"))
}

// --- C21 ---------------------------------------------------------------------------------------

/// Contexts a macro is generated for.
fn contexts(n: usize) -> Vec<Cx> {
  let mut o = vec![
    context(0, None, None, None),
    context(31, None, None, None),
    context(31, Some("::core::ffi"), Some("::core"), Some("1.50.0")),
    context(TYPES | FNS, None, None, None),
    context(ARGS, Some("libc"), None, Some("1.16.0")),
    context(ENUMS | FIELDS | ARGS, None, Some("std"), None),
  ];
  // The same names, but with other answers.
  let mut other = context(31, None, None, None);
  other.args = vec![("*".into(), "x".into(), "*mut m::U".into()), ("*".into(), "y".into(), "f64".into())];
  other.types[0].1 = "c_uchar".into();
  other.enums[0] = ("E1".into(), "c_int".into(), "OTHER".into());
  other.fns = vec![("f".into(), vec!["f32".into()], "*mut m::U".into()), ("M".into(), vec![], "c_int".into())];
  o.insert(2, other);
  o.truncate(n);
  o
}

enum Obj<'t> {
  Var(VarMacro<'t>),
  Fn(FnMacro<'t>),
}
impl<'t> Obj<'t> {
  fn clone(&self) -> Self {
    match self {
      Obj::Var(v) => Obj::Var(v.clone()),
      Obj::Fn(v) => Obj::Fn(v.clone()),
    }
  }
  fn state(&self) -> String {
    match self {
      Obj::Var(v) => format!("{v:?} {:?} {:?}", v.name(), v.value()),
      Obj::Fn(v) => format!("{v:?} {:?} {:?} {:?}", v.name(), v.args(), v.body()),
    }
  }
  fn generate(&mut self, cx: &Cx) -> String {
    match self {
      Obj::Var(v) => match v.generate(cx) {
        Ok((e, t)) => format!("{e} : {t:?}", t = t.map(|t| t.to_string())),
        Err(e) => format!("error {e:?}"),
      },
      Obj::Fn(v) => match v.generate(cx) {
        Ok(t) => t.to_string(),
        Err(e) => format!("error {e:?}"),
      },
    }
  }
}
fn parse<'t>(m: &'t MacroSet, func: bool) -> Result<Obj<'t>, String> {
  if func {
    let (a, t) = m.expand_fn_macro("M").map_err(|e| format!("expand {e:?}"))?;
    FnMacro::parse("M", &a, &t).map(Obj::Fn).map_err(|e| format!("parse {e:?}"))
  } else {
    let t = m.expand_var_macro("M").map_err(|e| format!("expand {e:?}"))?;
    VarMacro::parse("M", &t).map(Obj::Var).map_err(|e| format!("parse {e:?}"))
  }
}
fn define(s: &Src) -> MacroSet {
  let mut m = MacroSet::new();
  if s.func {
    m.define_fn_macro("M", &s.params, s.toks());
  } else {
    m.define_var_macro("M", s.toks());
  }
  m
}

fn history(ch: &mut Ch, s: Src, ncx: usize, len: usize) -> V {
  let n = 1 + ch.pick(len);
  // For every step: which context, and whether on a clone.
  let steps: Vec<(usize, bool)> = (0..n).map(|_| (ch.pick(ncx), ch.flag())).collect();
  ch.note(format!("{}  generated with {steps:?} (context, on a clone)", s.text()));
  let r = guard(|| -> Result<Option<u64>, String> {
    let cxs = contexts(ncx);
    let m = define(&s);
    let mut obj = match parse(&m, s.func) {
      Ok(o) => o,
      Err(_) => return Ok(None),
    };
    let before = obj.state();
    let mut seen = vec![];
    for (i, (c, on_clone)) in steps.iter().enumerate() {
      let got = if *on_clone {
        let mut c2 = obj.clone();
        let g = c2.generate(&cxs[*c]);
        // Go on with the clone, the original must not depend on it.
        let o = obj.generate(&cxs[*c]);
        if o != g {
          return Err(format!("step {i}: the clone gives\n{g}\nthe original\n{o}"));
        }
        obj = c2;
        g
      } else {
        obj.generate(&cxs[*c])
      };
      let m2 = define(&s);
      let fresh = parse(&m2, s.func)?.generate(&cxs[*c]);
      if got != fresh {
        return Err(format!("step {i}: freshly parsed\n{fresh}\nafter the steps before\n{got}"));
      }
      if obj.state() != before {
        return Err(format!("step {i} changed the macro\n{before}\n{}", obj.state()));
      }
      seen.push(got);
    }
    Ok(Some(h(&seen)))
  });
  ch.model_steps += n as u64;
  match r {
    Ok(Ok(Some(x))) => V::Ok(x),
    Ok(Ok(None)) => V::Skip("not parsed"),
    Ok(Err(e)) | Err(e) => V::Fail(e),
  }
}

/// Expanding: any sequence of expansions of a set, each time the same.
fn expansions(ch: &mut Ch) -> V {
  let defs: &[(&str, Option<&[&str]>, &str)] = &[
    ("A", None, "B 1"), ("B", None, "A C"), ("C", None, "F ( B )"), ("F", Some(&["x"]), "x A # x"), ("G", Some(&["x", "..."]), "x ## 1 __VA_ARGS__ F ( x )"), ("A", Some(&["x"]), "x + B"), ("D", None, "##"), ("E", None, "G ("),
  ];
  let names: &[(&str, u8)] = &[("A", 0), ("B", 0), ("C", 0), ("D", 0), ("F", 1), ("G", 1), ("A", 1), ("X", 0), ("F ( A ) G ( 1 , B )", 2), ("C E 1 )", 2)];
  let run = |m: &MacroSet, (n, k): (&str, u8)| match k {
    0 => format!("{:?}", m.expand_var_macro(n)),
    1 => format!("{:?}", m.expand_fn_macro(n)),
    _ => format!("{:?}", m.expand(&n.split(' ').collect::<Vec<_>>())),
  };
  let mk = || {
    let mut m = MacroSet::new();
    for (n, p, b) in defs {
      let b: Vec<&str> = b.split(' ').collect();
      match p {
        None => m.define_var_macro(*n, b),
        Some(p) => m.define_fn_macro(*n, *p, b),
      };
    }
    m
  };
  let max = ch.tier.q(4, 6);
  let n = 1 + ch.pick(max);
  let seq: Vec<(&str, u8)> = (0..n).map(|_| names[ch.pick(names.len())]).collect();
  ch.note(format!("expanding {seq:?} of {defs:?}"));
  ch.model_steps += n as u64;
  match guard(|| {
    let m = mk();
    let c = m.clone();
    for (i, s) in seq.iter().enumerate() {
      let (got, fresh) = (run(&m, *s), run(&mk(), *s));
      if got != fresh {
        return Err(format!("step {i}: fresh {fresh}\nafter the steps before {got}"));
      }
    }
    let (x, y) = (run(&c, seq[0]), run(&m, seq[0]));
    if x == y { Ok(h(&x)) } else { Err(format!("the clone differs: {x}\n{y}")) }
  }) {
    Ok(Ok(x)) => V::Ok(x),
    Ok(Err(e)) | Err(e) => V::Fail(e),
  }
}

pub fn c21(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "histories", bounds: format!("every leaf in every frame with one place: every history of up to {} generations of one parsed macro, each under any of {} contexts and on the macro or on a clone that replaces it", t.q(2, 3), t.q(4, 5)), f: |ch| {
      let s = one(ch);
      let (c, l) = ch.tier.q((4, 2), (5, 3));
      history(ch, s, c, l)
    } },
    Space { name: "pairs", bounds: format!("{} frames with two places, every combination of {} leaves: every history of two generations under {} contexts", FRAMES.len(), t.q(14, FEW), t.q(3, 5)), f: |ch| {
      let l = ch.tier.q(14, FEW);
      let s = corpus::src(ch, l, FRAMES.len());
      let c = ch.tier.q(3, 5);
      history(ch, s, c, 2)
    } },
    Space { name: "long", bounds: format!("{} macros: every history of up to {} generations under 7 contexts", t.q(6, 24), t.q(3, 5)), f: |ch| {
      let all: &[(bool, &str)] = &[
        (true, "x + E1"), (true, "( T ) x"), (true, "f ( x )"), (false, "( T ) E1"), (true, "{ T v = x ; f ( v ) ; y = x ; }"), (true, "a_ ## x"), (false, "sizeof ( T )"), (true, "x . fld"), (true, "( * x ) . fld"), (true, "if ( x ) y = E1 ;"), (true, "'a' + L'b' + x"),
        (true, "x ? 1.5f : y"), (false, "\"a\" \"b\""), (true, "\"a\" # x"), (true, "__asm__ ( \"%0\" : \"=r\" ( x ) : \"0\" ( E1 ) )"), (true, "( T ) ( x ) * ( T ) y"), (true, "& x"), (true, "M2 ( x )"), (true, "* ( volatile T * ) x"), (true, "x += E2"),
        (false, "! E1"), (true, "( bool ) x"), (true, "f ( g ( x , y ) )"), (true, "int fn0 ( T a ) ;"),
      ];
      let (f, b) = all[ch.pick(ch.tier.q(6, 24))];
      let s = Src { func: f, params: if f { vec!["x", "y"] } else { vec![] }, body: b.split(' ').map(String::from).collect() };
      let l = ch.tier.q(3, 5);
      let n = 1 + ch.pick(l);
      let steps: Vec<usize> = (0..n).map(|_| ch.pick(7)).collect();
      ch.note(format!("{}  generated with the contexts {steps:?}", s.text()));
      ch.model_steps += n as u64;
      match guard(|| -> Result<u64, String> {
        let cxs = contexts(7);
        let m = define(&s);
        let Ok(mut obj) = parse(&m, s.func) else { return Ok(0) };
        let before = obj.state();
        for (i, c) in steps.iter().enumerate() {
          let got = obj.generate(&cxs[*c]);
          let fresh = parse(&define(&s), s.func)?.generate(&cxs[*c]);
          if got != fresh || obj.state() != before {
            return Err(format!("step {i}: freshly parsed\n{fresh}\nafter the steps before\n{got}\nmacro {before}\nnow {}", obj.state()));
          }
        }
        Ok(h(&steps))
      }) {
        Ok(Ok(x)) => V::Ok(x),
        Ok(Err(e)) | Err(e) => V::Fail(e),
      }
    } },
    Space { name: "expansions", bounds: format!("every sequence of up to {} expansions of 10 macros and token lists of one set", t.q(4, 6)), f: expansions },
  ]
}

// --- C22 ---------------------------------------------------------------------------------------

const COMMENTS: &[&str] = &["/* c */", "/**/", "// x", "/* \"s\" ( , ) # x */"];

/// Insert comments into the gaps.
fn with_comments(body: &[String], gaps: &[(usize, &str)]) -> Vec<String> {
  let mut o = vec![];
  for i in 0..=body.len() {
    for (_, c) in gaps.iter().filter(|g| g.0 == i) {
      o.push(c.to_string());
    }
    if i < body.len() {
      o.push(body[i].clone());
    }
  }
  o
}
/// Which gaps get comments.
fn gaps(ch: &mut Ch, n: usize, max: usize) -> Vec<(usize, &'static str)> {
  match ch.pick(max + 1) {
    0 => {
      let c = COMMENTS[ch.pick(COMMENTS.len())];
      (0..=n).map(|i| (i, c)).collect()
    },
    k => {
      let mut from = 0;
      let mut o = vec![];
      for _ in 0..k {
        let g = from + ch.pick(n + 1 - from);
        o.push((g, COMMENTS[ch.pick(if k > 1 { 1 } else { COMMENTS.len() })]));
        // The same gap may get two.
        from = g;
      }
      o
    },
  }
}
fn strip<'t>(t: Vec<MacroToken<'t>>) -> Vec<MacroToken<'t>> {
  t.into_iter().filter(|t| !matches!(t, MacroToken::Comment(_))).collect()
}

fn put<'t>(t: Vec<MacroToken<'t>>, gaps: &[(usize, &'static str)]) -> Vec<MacroToken<'t>> {
  let mut o = vec![];
  let n = t.len();
  for (i, t) in t.into_iter().map(Some).chain([None]).enumerate() {
    for (_, c) in gaps.iter().filter(|g| g.0.min(n) == i) {
      o.push(MacroToken::Comment(Comment::try_from(*c).expect("comment")));
    }
    o.extend(t);
  }
  o
}

fn commented(ch: &mut Ch, s: &Src, gaps: &[(usize, &'static str)], direct: bool, bits: u32) -> V {
  let body = with_comments(&s.body, gaps);
  ch.note(format!("{} {}  known {bits:05b}{}", s.text(), body.join(" "), if direct { ", comments added to the parsed tokens" } else { "" }));
  let cx = context(bits, None, None, None);
  ch.model_steps += gaps.len() as u64;
  let run = || -> Result<Option<u64>, String> {
    let m = define(s);
    let show = |o: Result<Obj<'_>, String>| match o {
      Ok(mut o) => o.generate(&cx),
      Err(e) => e,
    };
    let want = show(parse(&m, s.func));
    let got = if direct {
      if s.func {
        let (a, t) = match m.expand_fn_macro("M") {
          Ok(x) => x,
          Err(_) => return Ok(None),
        };
        show(FnMacro::parse("M", &put(a, gaps), &put(t, gaps)).map(Obj::Fn).map_err(|e| format!("parse {e:?}")))
      } else {
        let Ok(t) = m.expand_var_macro("M") else { return Ok(None) };
        show(VarMacro::parse("M", &put(t, gaps)).map(Obj::Var).map_err(|e| format!("parse {e:?}")))
      }
    } else {
      let t = Src { func: s.func, params: s.params.clone(), body: body.clone() };
      let m2 = define(&t);
      if s.func {
        match (m.expand_fn_macro("M"), m2.expand_fn_macro("M")) {
          (Ok((a, x)), Ok((b, y))) if strip(a.clone()) == strip(b.clone()) && strip(x.clone()) == strip(y.clone()) => {},
          (Err(a), Err(b)) if a == b => {},
          (a, b) => return Err(format!("expansion\n{a:?}\nwith comments\n{b:?}")),
        }
      } else {
        match (m.expand_var_macro("M"), m2.expand_var_macro("M")) {
          (Ok(x), Ok(y)) if strip(x.clone()) == strip(y.clone()) => {},
          (Err(a), Err(b)) if a == b => {},
          (a, b) => return Err(format!("expansion\n{a:?}\nwith comments\n{b:?}")),
        }
      }
      show(parse(&m2, s.func))
    };
    if want == got { Ok(Some(h(&want))) } else { Err(format!("without: {want}\nwith:    {got}")) }
  };
  match guard(run) {
    Ok(Ok(Some(x))) => V::Ok(x),
    Ok(Ok(None)) => V::Skip("not expanded"),
    Ok(Err(e)) | Err(e) => V::Fail(e),
  }
}

/// Comments in definitions and calls, seen by the expansion.
fn calls(ch: &mut Ch) -> V {
  let params: &[&str] = [&["x", "y"][..], &["x", "..."], &["x"], &[]][ch.pick(4)];
  let bodies: &[&str] = &["x + y", "# x", "x ## y", "# x ## y", "__VA_ARGS__", "# __VA_ARGS__", "F ( x )", "x ( 1 )", "G", "x ## __VA_ARGS__", "x y"];
  let body: Vec<String> = ch.of(bodies).split(' ').map(String::from).collect();
  let uses: &[&str] = &["F ( a , b )", "F ( a )", "F ( )", "F ( ( a , b ) , c )", "F ( F ( a , b ) , c )", "F ( \"s\" , 1 )", "F ( , )", "F", "F F ( a , b )", "G ( a , b )", "F ( a b , c d ) ( e )", "F ( F , G ) ( 1 , 2 )"];
  let input: Vec<String> = ch.of(uses).split(' ').map(String::from).collect();
  // Where: parameters, body, use.
  let p: Vec<String> = params.iter().map(|s| s.to_string()).collect();
  let place = ch.pick(3);
  let n = [p.len(), body.len(), input.len()][place];
  let max = ch.tier.q(2, 3);
  let g = gaps(ch, n, max);
  let c = |k: usize, t: &[String]| if k == place { with_comments(t, &g) } else { t.to_vec() };
  let (p2, b2, i2) = (c(0, &p), c(1, &body), c(2, &input));
  ch.note(format!("F({}) {}: {}", p2.join(" "), b2.join(" "), i2.join(" ")));
  ch.model_steps += g.len() as u64;
  let run = |p: &[String], b: &[String], i: &[String]| -> Result<String, String> {
    let mut m = MacroSet::new();
    m.define_fn_macro("F", p, b);
    m.define_var_macro("G", ["F"]);
    let r: Result<Vec<String>, _> = m.expand(i).map(|t| t.into_iter().filter(|t| !matches!(t, MacroToken::Comment(_))).map(|t| format!("{t:?}")).collect());
    let d: Result<(String, String), _> = m.expand_fn_macro("F").map(|(a, b)| (format!("{:?}", strip(a)), format!("{:?}", strip(b))));
    Ok(format!("{r:?}\ndefinition {d:?}"))
  };
  match guard(|| (run(&p, &body, &input), run(&p2, &b2, &i2))) {
    Ok((a, b)) if a == b => V::Ok(h(&a.unwrap())),
    Ok((a, b)) => V::Fail(format!("without: {}\nwith:    {}", a.unwrap(), b.unwrap())),
    Err(e) => V::Fail(e),
  }
}

pub fn c22(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "gaps", bounds: format!("every leaf in every frame with one place: 4 kinds of comment in each gap, in all gaps, and in every choice of up to {} gaps; in the definition and in the tokens given to the parser", t.q(1, 3)), f: |ch| {
      let s = one(ch);
      let n = ch.tier.q(1, 3);
      let g = gaps(ch, s.body.len(), n);
      let direct = ch.flag();
      let bits = if g.len() > 1 && n > 1 { 31 } else { [31, 0][ch.pick(2)] };
      commented(ch, &s, &g, direct, bits)
    } },
    Space { name: "frames", bounds: format!("every combination of {} leaves in {} frames with two places, comments in each and in all gaps", t.q(9, FEW), FRAMES.len()), f: |ch| {
      let l = ch.tier.q(9, FEW);
      let s = corpus::src(ch, l, FRAMES.len());
      let g = gaps(ch, s.body.len(), 1);
      let direct = ch.flag();
      commented(ch, &s, &g, direct, 31)
    } },
    Space { name: "calls", bounds: format!("11 bodies with 4 parameter lists and 12 uses (nested, without arguments, through another macro): comments in all gaps, or up to {} gaps, of parameters, body or use", t.q(2, 3)), f: calls },
    Space { name: "deep", bounds: format!("12 long macros with every choice of up to {} gaps", t.q(2, 4)), f: |ch| {
      let all: &[(bool, &str)] = &[
        (true, "do { if ( x == 1 ) { f ( y ) ; } else { x = 2 ; } } while ( 0 )"), (true, "{ static const unsigned long v = x ; g ( v , \"s\" ) ; }"), (true, "__asm__ volatile ( \"a %0, %1\" : \"=r\" ( x ) , \"+r\" ( y ) : \"r\" ( 1 ) , \"0\" ( 2 ) : \"memory\" , \"cc\" )"),
        (true, "( ( volatile T * ) x ) -> fld += ( unsigned char ) y"), (true, "x ? y : sizeof ( struct S * const )"), (false, "( const volatile unsigned long long int * ) 0"), (false, "\"a\" \"b\" \"c\""), (true, "a_ ## x ## _b ( y , \"s\" # x )"), (true, "static unsigned char fn0 ( const char * a , T b ) ;"),
        (true, "x [ 1 ] . fld ++ , y"), (true, "# x \"a\" # y"), (false, "- ~ ! ( 1 << 2 | 3 )"),
      ];
      let (f, b) = all[ch.pick(all.len())];
      let s = Src { func: f, params: if f { vec!["x", "y"] } else { vec![] }, body: b.split(' ').map(String::from).collect() };
      let n = ch.tier.q(2, 4);
      let g = gaps(ch, s.body.len(), n);
      let direct = ch.flag();
      commented(ch, &s, &g, direct, 31)
    } },
  ]
}
