//! C09: strings and characters in generated code.

use crate::engine::*;
use crate::gen::{self, Cx, Gen};
use crate::num;
use crate::reflit::{self, Enc, R};
use proc_macro2::TokenStream;
use syn::visit::Visit;

/// What a piece of generated code holds.
#[derive(Clone, PartialEq, Debug)]
enum Part {
  Units(Vec<i128>),
  /// The argument, as a literal.
  Arg(String),
  /// The spelling of the argument.
  Text(String),
  File,
  /// The number of the line.
  Line,
}
#[derive(Clone, PartialEq, Debug)]
struct S {
  kind: Kind,
  elem: String,
  parts: Vec<Part>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
  Array,
  CStr,
  Ptr,
}

fn path(p: &syn::Path) -> String {
  let s = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
  if p.leading_colon.is_some() { format!("::{s}") } else { s }
}
fn show(t: &impl quote::ToTokens) -> String {
  t.to_token_stream().to_string()
}

/// `&[T; N]`: (has a lifetime, element type, length)
fn array_ty(t: &syn::Type) -> Option<(bool, String, usize)> {
  let syn::Type::Reference(r) = t else { return None };
  let life = match &r.lifetime {
    Some(l) if l.ident == "static" => true,
    None => false,
    _ => return None,
  };
  let syn::Type::Array(a) = &*r.elem else { return None };
  let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) = &a.len else { return None };
  let syn::Type::Path(e) = &*a.elem else { return None };
  Some((life, path(&e.path), n.base10_parse().ok()?))
}

/// Elements of a byte string or an array of integers, as values of type `elem`.
fn elems(e: &syn::Expr, elem: &str) -> Result<Vec<i128>, String> {
  match e {
    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => {
      if elem != "u8" {
        return Err(format!("a byte string is no array of {elem}"));
      }
      Ok(b.value().iter().map(|b| *b as i128).collect())
    },
    syn::Expr::Reference(r) => {
      let syn::Expr::Array(a) = &*r.expr else { return Err(format!("not an array: {}", show(e))) };
      a.elems
        .iter()
        .map(|x| match num::value(&show(x), Some(elem)) {
          Ok(num::Val::Int(v, _)) => Ok(v),
          r => Err(format!("element {}: {r:?}", show(x))),
        })
        .collect()
    },
    _ => Err(format!("not a string: {}", show(e))),
  }
}

/// The arguments of `concat!`.
fn concat(m: &syn::Macro, tr: &str) -> Result<Vec<Part>, String> {
  use syn::parse::Parser;
  let list = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
    .parse2(gen::substitute(m.tokens.clone()))
    .map_err(|e| format!("concat!: {e}"))?;
  let mut out = vec![];
  for e in &list {
    match e {
      syn::Expr::Lit(l) => match &l.lit {
        syn::Lit::Str(s) => out.push(Part::Units(s.value().bytes().map(|b| b as i128).collect())),
        syn::Lit::Char(c) => out.push(Part::Units(c.value().to_string().bytes().map(|b| b as i128).collect())),
        _ => return Err(format!("concat! of {}", show(e))),
      },
      syn::Expr::Path(p) => match p.path.get_ident().map(|i| i.to_string()).and_then(|s| s.strip_prefix("ARG_").map(|s| s.to_string())) {
        Some(a) => out.push(Part::Arg(a)),
        None => return Err(format!("concat! of {}", show(e))),
      },
      syn::Expr::Macro(m) => {
        let p = path(&m.mac.path);
        let n = p.strip_prefix(tr).unwrap_or("?");
        match n {
          "file" => out.push(Part::File),
          // The file name as a literal.
          "format" => {
            let t: String = m.mac.tokens.to_string().chars().filter(|c| !c.is_whitespace()).collect();
            if t != format!("\"{{:?}}\",{tr}file!()") {
              return Err(format!("format! of {t}"));
            }
            out.extend([Part::Units(vec![34]), Part::File, Part::Units(vec![34])]);
          },
          "stringify" => match m.mac.tokens.to_string().strip_prefix("ARG_") {
            Some(a) => out.push(Part::Text(a.into())),
            None if m.mac.tokens.to_string().replace(' ', "") == format!("{tr}line!()") => out.push(Part::Line),
            None => return Err(format!("stringify! of {}", m.mac.tokens)),
          },
          "concat" => out.extend(concat(&m.mac, tr)?),
          _ => return Err(format!("concat! of {}", show(e))),
        }
      },
      _ => return Err(format!("concat! of {}", show(e))),
    }
  }
  Ok(out)
}

/// `{ const X: &[T; N] = V; X.as_ptr() as *const U }`
fn pointer(b: &syn::Block, cx: &Cx) -> Option<Result<S, String>> {
  let ffi = cx.ffi.as_ref().map(|p| format!("{p}::")).unwrap_or_default().replace(' ', "");
  let tr = cx.tr.as_ref().map(|p| format!("{p}::")).unwrap_or_default().replace(' ', "");
  let [syn::Stmt::Item(syn::Item::Const(c)), syn::Stmt::Expr(tail, None)] = &b.stmts[..] else { return None };
  Some((|| {
    let (call, to) = match tail {
      syn::Expr::Cast(c) => (&*c.expr, Some(&*c.ty)),
      e => (e, None),
    };
    let syn::Expr::MethodCall(m) = call else { return Err(format!("no pointer to the string: {}", show(tail))) };
    if m.method != "as_ptr" || !m.args.is_empty() || show(&m.receiver) != c.ident.to_string() {
      return Err(format!("no pointer to the string: {}", show(tail)));
    }
    let (elem, parts) = match (&*c.ty, &*c.expr) {
      (syn::Type::Reference(r), syn::Expr::MethodCall(m)) if show(&r.elem) == "[u8]" => {
        let syn::Expr::Macro(mac) = &*m.receiver else { return Err(format!("not a string: {}", show(&c.expr))) };
        if m.method != "as_bytes" || path(&mac.mac.path) != format!("{tr}concat") {
          return Err(format!("not a string: {}", show(&c.expr)));
        }
        ("u8".to_string(), concat(&mac.mac, &tr)?)
      },
      (t, e) => {
        let (_, elem, n) = array_ty(t).ok_or_else(|| format!("not an array type: {}", show(t)))?;
        let v = elems(e, &elem)?;
        if v.len() != n {
          return Err(format!("{} units declared as {n}", v.len()));
        }
        (elem, vec![Part::Units(v)])
      },
    };
    let elem = match to {
      None => elem,
      Some(syn::Type::Ptr(p)) if p.const_token.is_some() && elem == "u8" => {
        let t = show(&p.elem).replace(' ', "");
        if t == format!("{ffi}c_char") {
          "c_char".into()
        } else {
          return Err(format!("pointer to {t}"));
        }
      },
      Some(t) => return Err(format!("cast to {}", show(t))),
    };
    Ok(S { kind: Kind::Ptr, elem, parts })
  })())
}

struct Find<'c> {
  cx: &'c Cx,
  found: Vec<Result<S, String>>,
}
impl<'a> Visit<'a> for Find<'_> {
  fn visit_block(&mut self, b: &'a syn::Block) {
    match pointer(b, self.cx) {
      Some(r) => self.found.push(r),
      None => syn::visit::visit_block(self, b),
    }
  }
  // Arguments of `addr_of_mut!` and the like.
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    if let Ok(e) = gen::expr(m.tokens.clone()) {
      self.visit_expr(&e);
    }
  }
  fn visit_lit(&mut self, l: &'a syn::Lit) {
    if matches!(l, syn::Lit::ByteStr(_) | syn::Lit::Str(_)) {
      self.found.push(Err(format!("a string which is no pointer: {}", show(l))));
    }
  }
}
/// All strings of an expression, in order.
fn find(ts: TokenStream, cx: &Cx) -> Result<Vec<S>, String> {
  let ts = gen::substitute(ts);
  let mut f = Find { cx, found: vec![] };
  match gen::expr(ts.clone()) {
    Ok(e) => f.visit_expr(&e),
    Err(_) => gen::stmts(ts)?.iter().for_each(|s| f.visit_stmt(s)),
  }
  f.found.into_iter().collect()
}

/// The constant a variable-like macro generates.
fn constant(e: TokenStream, ty: TokenStream, cx: &Cx) -> Result<S, String> {
  let ty: syn::Type = syn::parse2(ty.clone()).map_err(|e| format!("not a type ({e}): {ty}"))?;
  let e = gen::expr(e)?;
  if let Some((_, elem, n)) = array_ty(&ty) {
    let v = elems(&e, &elem)?;
    if v.len() != n {
      return Err(format!("{} units declared as {n}", v.len()));
    }
    return Ok(S { kind: Kind::Array, elem, parts: vec![Part::Units(v)] });
  }
  if let syn::Type::Reference(r) = &ty {
    let tr = cx.tr.as_ref().map(|p| format!("{p}::ffi::")).unwrap_or_default().replace(' ', "");
    if show(&r.elem).replace(' ', "") != format!("{tr}CStr") {
      return Err(format!("unexpected type {}", show(&ty)));
    }
    // The one call of `from_bytes_with_nul_unchecked`, whatever is around it.
    struct Call<'s>(&'s str, Vec<syn::Expr>);
    impl<'a> Visit<'a> for Call<'_> {
      fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if show(&c.func).replace(' ', "") == format!("{}CStr::from_bytes_with_nul_unchecked", self.0) && c.args.len() == 1 {
          self.1.push(c.args[0].clone());
        }
      }
    }
    let mut c = Call(&tr, vec![]);
    c.visit_expr(&e);
    if c.1.len() != 1 {
      return Err(format!("no C string: {}", show(&e)));
    }
    let v = elems(&c.1[0], "u8")?;
    if v.iter().position(|b| *b == 0) != Some(v.len() - 1) {
      return Err("a CStr has exactly one zero, at its end".into());
    }
    return Ok(S { kind: Kind::CStr, elem: "c_char".into(), parts: vec![Part::Units(v)] });
  }
  let r = find(quote::quote! { #e }, cx)?;
  match &r[..] {
    [s] => {
      if show(&ty).replace(' ', "") != pointer_ty(&s.elem, cx) {
        return Err(format!("a pointer to {} has the type {}", s.elem, show(&ty)));
      }
      Ok(s.clone())
    },
    _ => Err(format!("no string: {}", show(&e))),
  }
}
fn pointer_ty(elem: &str, cx: &Cx) -> String {
  if elem == "c_char" {
    format!("*const{}c_char", cx.ffi.as_ref().map(|p| format!("{p}::")).unwrap_or_default().replace(' ', ""))
  } else {
    format!("*const{elem}")
  }
}

// --- the model -------------------------------------------------------------------------------

/// Code units of adjacent literals, and their encoding.
enum Joined {
  Good(Enc, Vec<i128>),
  /// No text of the encoding; the crate cannot represent it and has to say so.
  NoText,
  Skip(&'static str),
}
fn text(enc: Enc, u: &[u32]) -> bool {
  match enc {
    Enc::Plain | Enc::Wide => true,
    Enc::U8 => std::str::from_utf8(&u.iter().map(|b| *b as u8).collect::<Vec<_>>()).is_ok(),
    Enc::U16 => String::from_utf16(&u.iter().map(|b| *b as u16).collect::<Vec<_>>()).is_ok(),
    Enc::U32 => u.iter().all(|c| char::from_u32(*c).is_some()),
  }
}
fn prefix(enc: Enc) -> &'static str {
  match enc {
    Enc::Plain => "",
    Enc::U8 => "u8",
    Enc::U16 => "u",
    Enc::U32 => "U",
    Enc::Wide => "L",
  }
}
/// Literals as (encoding, body without quotes).
fn join(lits: &[(Enc, String)]) -> Joined {
  let mut enc = Enc::Plain;
  for (e, _) in lits {
    if *e != Enc::Plain {
      if enc != Enc::Plain && enc != *e {
        return Joined::Skip("literals of two different encodings");
      }
      enc = *e;
    }
  }
  let mut out = vec![];
  let mut good = true;
  for (e, body) in lits {
    let own = match reflit::string(&format!("{}\"{body}\"", prefix(*e))) {
      R::Good((_, u)) => u,
      _ => return Joined::Skip("not a valid string literal"),
    };
    good &= text(*e, &own);
    if *e == Enc::Plain && enc != Enc::Plain {
      // The tokens of an unprefixed literal are bytes: a number above 127 is no character.
      if own.iter().any(|b| *b > 0x7f) && (body.contains("\\x") || (0..8).any(|d| body.contains(&format!("\\{d}")))) {
        return Joined::Skip("numeric escape above 127 in an unprefixed literal next to a prefixed one");
      }
    }
    match reflit::string(&format!("{}\"{body}\"", prefix(enc))) {
      R::Good((_, u)) => out.extend(u.into_iter().map(|u| u as i128)),
      _ => return Joined::Skip("not a valid string literal"),
    }
  }
  if !good {
    return Joined::NoText;
  }
  Joined::Good(enc, out)
}

const WCHARS: &[(&str, bool)] = &[("i32", true), ("u32", false)];
const TARGETS: &[(&str, bool, bool)] =
  &[("", true, true), ("1.16.9", false, false), ("1.17.0", true, false), ("1.58.1", true, false), ("1.59.0", true, true), ("1.80.0", true, true)];
const PREFIXES: &[(Option<&str>, Option<&str>)] = &[(None, None), (Some("::core::ffi"), Some("::core")), (Some("ffi"), None), (None, Some("std"))];

fn context(target: usize, prefixes: usize, wchar: usize) -> Cx {
  let mut cx = Cx::default();
  cx.types.push(("wchar_t".into(), WCHARS[wchar].0.into()));
  cx.target = Some(TARGETS[target].0.to_string()).filter(|s| !s.is_empty());
  cx.ffi = PREFIXES[prefixes].0.map(|s| s.into());
  cx.tr = PREFIXES[prefixes].1.map(|s| s.into());
  cx
}
fn elem_ty(enc: Enc, kind: Kind, wchar: usize) -> &'static str {
  match enc {
    Enc::Plain if kind == Kind::Array => "u8",
    Enc::Plain => "c_char",
    Enc::U8 => "u8",
    Enc::U16 => "u16",
    Enc::U32 => "u32",
    Enc::Wide => WCHARS[wchar].0,
  }
}
fn units(enc: Enc, u: &[i128], wchar: usize) -> Vec<i128> {
  u.iter().map(|v| if enc == Enc::Wide && WCHARS[wchar].1 { num::wrap(*v, true, 32) } else { *v }).collect()
}

/// A macro whose value is the given literals.
fn alone(ch: &mut Ch, lits: &[(Enc, String)], paren: bool, target: usize, prefixes: usize, wchar: usize) -> V {
  let mut body: Vec<String> = lits.iter().map(|(e, b)| format!("{}\"{b}\"", prefix(*e))).collect();
  if paren {
    body.insert(0, "(".into());
    body.push(")".into());
  }
  ch.note(format!("#define S {}\n  target {:?} prefixes {:?} wchar_t {}", body.join(" "), TARGETS[target].0, PREFIXES[prefixes], WCHARS[wchar].0));
  let want = match join(lits) {
    Joined::Skip(r) => return V::Skip(r),
    Joined::NoText => None,
    Joined::Good(enc, u) => Some((enc, u)),
  };
  let cx = context(target, prefixes, wchar);
  let b: Vec<&str> = body.iter().map(|s| s.as_str()).collect();
  let g = gen::var(&cx, "S", &b);
  match (want, g) {
    (None, Gen::Err(..)) => V::Ok(0),
    (None, g) => V::Fail(format!("the units are no text, but generated {g:?}")),
    (Some((enc, u)), Gen::Var { expr, ty: Some(ty) }) => {
      let show = format!("{ty} = {expr}");
      let kind = if enc == Enc::Plain && TARGETS[target].2 && !u.contains(&0) { Kind::CStr } else { Kind::Array };
      let mut u = units(enc, &u, wchar);
      u.push(0);
      match constant(expr, ty.clone(), &cx) {
        Err(e) => V::Fail(format!("{e}\ngenerated: {show}")),
        Ok(s) => {
          let want = S { kind, elem: elem_ty(enc, kind, wchar).into(), parts: vec![Part::Units(u)] };
          if s != want {
            return V::Fail(format!("C:    {want:?}\nRust: {s:?}\ngenerated: {show}"));
          }
          let life = matches!(syn::parse2::<syn::Type>(ty), Ok(syn::Type::Reference(r)) if r.lifetime.is_some());
          if !life && !TARGETS[target].1 {
            return V::Fail(format!("needs a lifetime before Rust 1.17: {show}"));
          }
          V::Ok(h(&(format!("{s:?}"), kind as u8)))
        },
      }
    },
    (Some(w), g) => V::Fail(format!("C:    {w:?}\nRust: {g:?}")),
  }
}

const PIECES: &[&str] = &["a", "é", "🍩", "\\0", "\\n", "\\377", "\\x80", "\\x41", "\\u00e9", "\\U0001F369", "\\\"", "1", "\\12", "\\\\", "\\'", "?", "'", "\\uffff", "{", "\\x7f"];
const ENCS: &[Enc] = &[Enc::Plain, Enc::U8, Enc::U16, Enc::U32, Enc::Wide];

pub fn c09(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "single", bounds: format!("every literal of up to 4 of {} characters and escapes with each of the 5 prefixes{}", PIECES.len(), t.q("", ", and up to 5 of the first 16")), f: |ch| {
      let enc = ENCS[ch.pick(5)];
      let max = ch.tier.q(5, 6);
      let n = ch.pick(max);
      let pieces = if n == 5 { &PIECES[..16] } else { PIECES };
      let s: String = (0..n).map(|_| ch.of(pieces)).collect();
      alone(ch, &[(enc, s)], false, 0, 0, 0)
    } },
    Space { name: "context", bounds: format!("every literal of up to 2 of {} pieces, bare and in parentheses, for 6 Rust versions, 4 prefix configurations and 2 types of wchar_t", 9), f: |ch| {
      let enc = ENCS[ch.pick(5)];
      let n = ch.pick(3);
      let s: String = (0..n).map(|_| ch.of(&["a", "é", "🍩", "\\0", "\\377", "\\n", "\\U0001F369", "\"", "\\xffffffff"])).collect();
      let paren = ch.flag();
      let (a, b, c) = (ch.pick(TARGETS.len()), ch.pick(PREFIXES.len()), ch.pick(WCHARS.len()));
      alone(ch, &[(enc, s)], paren, a, b, c)
    } },
    Space { name: "adjacent", bounds: format!("every sequence of 2 to {} adjacent literals of up to 10 bodies with each prefix", t.q(3, 4)), f: |ch| {
      let max = ch.tier.q(3, 4);
      let n = 2 + ch.pick(max - 1);
      let bodies: &[&str] = match n { 2 => &["", "a", "é", "🍩", "\\0", "\\377", "\\x4", "1", "\\u00e9", "\\1", "\\x80", "\\\""], 3 => &["", "a", "é", "\\0", "\\x4", "1", "🍩"], _ => &["", "é", "\\0", "1"] };
      let l: Vec<(Enc, String)> = (0..n).map(|_| { let e = ENCS[ch.pick(5)]; (e, ch.of(bodies).to_string()) }).collect();
      let paren = ch.flag();
      let target = ch.pick(2);
      alone(ch, &l, paren, target, 0, 0)
    } },
    Space { name: "embedded", bounds: format!("one or two strings of up to 2 literals in {} larger expressions and statements, variable-like and function-like, for 2 prefix configurations", FRAMES.len()), f: embedded },
    Space { name: "arguments", bounds: format!("every sequence of up to {} of 13 literals, arguments, stringified arguments and __FILE__", t.q(4, 5)), f: arguments },
    Space { name: "places", bounds: format!("every sequence of up to {} strings, parameters, `__FILE__` and `__LINE__`, as they are or stringified by one or two macros, in 3 positions, all prefix configurations", t.q(3, 4)), f: places },
    Space { name: "characters", bounds: "every character 0..=0x2ff raw and as each escape, and the neighbours of every power of two, with each prefix, 2 prefix configurations and types of wchar_t".into(), f: characters },
  ]
}

/// `@` is a string; (parameters if function-like, tokens)
const FRAMES: &[(Option<&str>, &str)] = &[
  (None, "1 ? @ : @"),
  (None, "( 1 ? @ : @ )"),
  (None, "@ == @"),
  (None, "! @"),
  (None, "( char * ) @"),
  (None, "( const void * ) @"),
  (None, "( const void * ) ( @ )"),
  (None, "@ + 1"),
  (None, "( const unsigned char * ) @ + 2"),
  (None, "@ != 0"),
  (None, "( long ) @"),
  (None, "( int ) ( long ) @ + 1"),
  (Some(""), "@"),
  (Some(""), "( @ )"),
  (Some(""), "puts ( @ )"),
  (Some("x"), "puts2 ( @ , x )"),
  (Some("x"), "puts2 ( x , @ )"),
  (Some(""), "puts2 ( @ , @ )"),
  (Some("x"), "x = @"),
  (Some("x"), "x . a = @"),
  (Some("x"), "x -> a = @"),
  (Some("x"), "x ? @ : @"),
  (Some("x"), "x == @"),
  (Some("x"), "do { puts ( @ ) ; puts ( @ ) ; } while ( 0 )"),
  (Some("x"), "if ( x ) puts ( @ ) ; else puts ( @ ) ;"),
  (Some("x"), "{ puts ( @ ) ; x = @ ; }"),
  (Some("x"), "( puts ( @ ) )"),
  (Some("x"), "( int ) @ [ 0 ]"),
  (Some("x"), "( void ) @"),
  (Some("x"), "const char * s = @ ;"),
  (Some("x"), "{ const char * s = @ ; puts ( s ) ; }"),
];

fn lits(ch: &mut Ch) -> Vec<(Enc, String)> {
  let bodies = ["a", "é\\0", "", "\\377", "\\x4", "1🍩"];
  let e = ENCS[ch.pick(5)];
  let mut l = vec![(e, ch.of(&bodies).to_string())];
  if ch.flag() {
    let f = if ch.flag() { Enc::Plain } else { e };
    l.push((f, ch.of(&bodies).to_string()));
    if ch.flag() {
      l.swap(0, 1);
    }
  }
  l
}
fn embedded(ch: &mut Ch) -> V {
  let (params, frame) = FRAMES[ch.pick(FRAMES.len())];
  let pre = ch.pick(2);
  let mut body: Vec<String> = vec![];
  let mut want = vec![];
  let mut none = false;
  let mut first = true;
  for t in frame.split(' ') {
    if t == "@" {
      let l = if first || ch.tier == Tier::Thorough { lits(ch) } else { vec![(Enc::Plain, "b".into())] };
      first = false;
      body.extend(l.iter().map(|(e, b)| format!("{}\"{b}\"", prefix(*e))));
      match join(&l) {
        Joined::Skip(r) => return V::Skip(r),
        Joined::NoText => none = true,
        Joined::Good(enc, u) => {
          let mut u = units(enc, &u, 0);
          u.push(0);
          want.push(S { kind: Kind::Ptr, elem: elem_ty(enc, Kind::Ptr, 0).into(), parts: vec![Part::Units(u)] });
        },
      }
    } else {
      body.push(t.into());
    }
  }
  let mut cx = context(0, pre, 0);
  cx.fns.push(("puts".into(), vec!["*const u8".into()], "i32".into()));
  cx.fns.push(("puts2".into(), vec!["*const u8".into(), "*const u8".into()], "i32".into()));
  let b: Vec<&str> = body.iter().map(|s| s.as_str()).collect();
  let params: Option<Vec<&str>> = params.map(|p| p.split_whitespace().collect());
  ch.note(format!("#define S{} {}\n  prefixes {:?}", params.as_ref().map(|p| format!("({})", p.join(", "))).unwrap_or_default(), body.join(" "), PREFIXES[pre]));
  let g = match &params {
    None => gen::var(&cx, "S", &b),
    Some(p) => match gen::func(&cx, "S", p, &b) {
      Ok(g) => g,
      Err(e) => return V::Fail(e),
    },
  };
  let ts = match g {
    Gen::Err(_, e) => return if none { V::Ok(1) } else { V::Fail(format!("not generated: {e}")) },
    Gen::Var { expr, .. } => expr,
    Gen::Func { body, .. } | Gen::Macro { body, .. } => body,
  };
  if none {
    return V::Fail(format!("the units are no text, but generated {ts}"));
  }
  let shown = ts.to_string();
  match find(ts, &cx) {
    Err(e) => V::Fail(format!("{e}\ngenerated: {shown}")),
    Ok(s) if s != want => V::Fail(format!("C:    {want:?}\nRust: {s:?}\ngenerated: {shown}")),
    Ok(s) => V::Ok(h(&format!("{s:?}"))),
  }
}

fn arguments(ch: &mut Ch) -> V {
  let max = ch.tier.q(4, 5);
  let n = 1 + ch.pick(max);
  let toks: &[&[&str]] = &[&["x"], &["#", "x"], &["\"a\""], &["\"é\\0\""], &["y"], &["__FILE__"], &["#", "y"], &["\"\\377\""], &["\"\\\"\\\\\""], &["L\"w\""], &["u8\"v\""], &["\"\""], &["\"{}\\n\""]];
  let k = if n >= 4 { 7 } else { toks.len() };
  let mut body: Vec<&str> = vec![];
  let mut want: Vec<Part> = vec![];
  let mut names = 0;
  let mut special = false;
  for _ in 0..n {
    let i = ch.pick(k);
    body.extend(toks[i]);
    match toks[i] {
      ["#", a] => {
        want.push(Part::Text(a.to_string()));
        names += 1;
      },
      ["__FILE__"] => {
        want.push(Part::File);
        names += 1;
      },
      [s] if s.contains('"') => {
        if s.starts_with(['L', 'u']) || s.contains("377") {
          special = true;
        }
        if let R::Good((_, u)) = reflit::string(s) {
          want.push(Part::Units(u.iter().map(|u| *u as i128).collect()));
        }
      },
      [a] => {
        want.push(Part::Arg(a.to_string()));
        names += 1;
      },
      _ => unreachable!(),
    }
  }
  if names == 0 {
    return V::Skip("no argument");
  }
  if n == 1 {
    return V::Skip("one part only");
  }
  let pre = ch.pick(2);
  let cx = context(0, pre, 0);
  ch.note(format!("#define S(x, y) {}\n  prefixes {:?}", body.join(" "), PREFIXES[pre]));
  want.push(Part::Units(vec![0]));
  let want = merge(want);
  match gen::func(&cx, "S", &["x", "y"], &body) {
    Err(e) => V::Fail(e),
    Ok(Gen::Err(_, _)) if special => V::Ok(2),
    Ok(Gen::Macro { body, .. }) => {
      let shown = body.to_string();
      match find(body, &cx) {
        Err(e) => V::Fail(format!("{e}\ngenerated: {shown}")),
        Ok(s) => match &s[..] {
          [s] if s.elem == "c_char" && merge(s.parts.clone()) == want => V::Ok(h(&format!("{s:?}"))),
          _ => V::Fail(format!("C:    {want:?}\nRust: {s:?}\ngenerated: {shown}")),
        },
      }
    },
    Ok(g) => V::Fail(format!("expected a macro: {g:?}")),
  }
}
/// Strings, `__FILE__` and `__LINE__` below other macros.
fn places(ch: &mut Ch) -> V {
  let q = |s: &str| Part::Units(s.bytes().map(|b| b as i128).collect());
  let items: [(&str, Vec<Part>); 13] = [
    ("\"a\"", vec![q("a")]),
    ("__FILE__", vec![Part::File]),
    ("T ( __FILE__ )", vec![q("\""), Part::File, q("\"")]),
    ("T ( __LINE__ )", vec![Part::Line]),
    ("S ( __FILE__ )", vec![q("__FILE__")]),
    ("S ( __LINE__ )", vec![q("__LINE__")]),
    ("x", vec![Part::Arg("x".into())]),
    ("# x", vec![Part::Text("x".into())]),
    ("T ( x )", vec![Part::Text("x".into())]),
    ("I ( __FILE__ )", vec![Part::File]),
    ("FILE", vec![Part::File]),
    ("T ( FILE )", vec![q("\""), Part::File, q("\"")]),
    ("T ( \"q\" )", vec![q("\"q\"")]),
  ];
  let n = 1 + ch.pick(ch.tier.q(3, 4));
  let mut body: Vec<&str> = vec![];
  let mut want = vec![];
  for _ in 0..n {
    let (t, w) = &items[ch.pick(items.len())];
    body.extend(t.split(' '));
    want.extend(w.iter().cloned());
  }
  let names = want.iter().filter(|p| !matches!(p, Part::Units(_))).count();
  if names == 0 || n == 1 && want == [Part::Arg("x".into())] {
    return V::Skip("one part only, or no name");
  }
  let (pre, around) = (ch.pick(PREFIXES.len()), ch.pick(3));
  let mut toks: Vec<&str> = ["( ", "", "puts ("][around].split_whitespace().collect();
  toks.extend(&body);
  toks.extend(["( )", "", " )"][around].split_whitespace().skip(if around == 0 { 1 } else { 0 }));
  let mut cx = context(0, pre, 0);
  cx.fns.push(("puts".into(), vec!["*const u8".into()], "i32".into()));
  let mut m = cmacro::MacroSet::new();
  m.define_fn_macro("S", ["s"], ["#", "s"]);
  m.define_fn_macro("T", ["s"], ["S", "(", "s", ")"]);
  m.define_fn_macro("I", ["s"], ["s"]);
  m.define_var_macro("FILE", ["__FILE__"]);
  m.define_fn_macro("F", ["x"], &toks);
  ch.note(format!("#define S(s) #s\n  #define T(s) S(s)\n  #define I(s) s\n  #define FILE __FILE__\n  #define F(x) {}\n  prefixes {:?}", toks.join(" "), PREFIXES[pre]));
  want.push(Part::Units(vec![0]));
  let want = merge(want);
  match guard(|| gen::func_in(&cx, &m, "F")) {
    Err(e) | Ok(Err(e)) => V::Fail(e),
    Ok(Ok(Gen::Macro { body, .. })) => {
      let shown = body.to_string();
      match find(body, &cx) {
        Err(e) => V::Fail(format!("{e}\ngenerated: {shown}")),
        Ok(s) => match &s[..] {
          [s] if s.elem == "c_char" && merge(s.parts.clone()) == want => V::Ok(h(&format!("{s:?}"))),
          _ => V::Fail(format!("C:    {want:?}\nRust: {s:?}\ngenerated: {shown}")),
        },
      }
    },
    Ok(Ok(g)) => V::Fail(format!("expected a macro: {g:?}")),
  }
}

fn merge(parts: Vec<Part>) -> Vec<Part> {
  let mut out: Vec<Part> = vec![];
  for p in parts {
    match (out.last_mut(), p) {
      (_, Part::Units(u)) if u.is_empty() => (),
      (Some(Part::Units(a)), Part::Units(u)) => a.extend(u),
      (_, p) => out.push(p),
    }
  }
  out
}

fn characters(ch: &mut Ch) -> V {
  let enc = ENCS[ch.pick(5)];
  let form = ch.pick(5);
  let c: u32 = match ch.pick(2) {
    0 => ch.pick(0x300) as u32,
    _ => {
      let p = 9 + ch.pick(24) as u32;
      let d = ch.pick(3) as i64 - 1;
      ((1i64 << p) + d).clamp(0, u32::MAX as i64) as u32
    },
  };
  let body = match form {
    0 => match char::from_u32(c) {
      Some('\'' | '\\') | Some('\n') | None => return V::Skip("not spelled like this"),
      Some(c) => c.to_string(),
    },
    1 => format!("\\x{c:x}"),
    2 => format!("\\{c:o}"),
    3 => format!("\\u{c:04x}"),
    _ => format!("\\U{c:08X}"),
  };
  let lit = format!("{}'{body}'", prefix(enc));
  let pre = ch.pick(2);
  let wchar = ch.pick(if enc == Enc::Wide { 2 } else { 1 });
  let cx = context(0, pre, wchar);
  ch.note(format!("#define S {lit}\n  prefixes {:?} wchar_t {}", PREFIXES[pre], WCHARS[wchar].0));
  let v = match reflit::chr(&lit) {
    R::Good((_, v)) => v as i128,
    _ => return V::Skip("not a valid character literal"),
  };
  let (want, name) = match enc {
    Enc::Plain => (num::wrap(v, true, 8), format!("{}c_char", cx.ffi.as_ref().map(|s| format!("{s}::")).unwrap_or_default())),
    Enc::Wide if WCHARS[wchar].1 => (num::wrap(v, true, 32), WCHARS[wchar].0.into()),
    _ => (v, elem_ty(enc, Kind::Array, wchar).into()),
  };
  match gen::var(&cx, "S", &[&lit]) {
    Gen::Var { expr, ty: Some(ty) } => {
      let shown = format!("{ty} = {expr}");
      if ty.to_string().replace(' ', "") != name {
        return V::Fail(format!("expected the type {name}: {shown}"));
      }
      match num::value(&expr.to_string(), Some(&name)) {
        Ok(num::Val::Int(x, _)) if x == want => V::Ok(h(&want)),
        r => V::Fail(format!("C:    {want}\nRust: {r:?}\ngenerated: {shown}")),
      }
    },
    g => V::Fail(format!("C:    {want}\nRust: {g:?}")),
  }
}

pub fn assumptions(_: &str) -> Vec<&'static str> {
  vec![
    "execution character set UTF-8, 32-bit wchar_t resolved by the context",
    "out of the domain: literals of two different encodings next to each other; a numeric escape above 127 in an unprefixed literal next to a prefixed one (the token is its bytes)",
    "prefixed or non-UTF-8 literals next to a macro argument must be reported or right",
  ]
}
