//! Comparing the crate's token lists with the reference preprocessor's.

use crate::refpp::*;
use cmacro::{Comment, ExpansionError, Identifier, IdentifierContinue, Lit, LitString, MacroSet, MacroToken, Punctuation};
use std::collections::BTreeMap;

pub fn build(defs: &BTreeMap<String, Def>) -> MacroSet {
  let mut m = MacroSet::new();
  for (n, d) in defs {
    match d {
      Def::Var(b) => {
        m.define_var_macro(n, b);
      },
      Def::Fn(p, b) => {
        m.define_fn_macro(n, p, b);
      },
    }
  }
  m
}

pub fn show_defs(defs: &BTreeMap<String, Def>) -> String {
  defs
    .iter()
    .map(|(n, d)| match d {
      Def::Var(b) => format!("#define {n} {}", b.join(" ")),
      Def::Fn(p, b) => format!("#define {n}({}) {}", p.join(","), b.join(" ")),
    })
    .collect::<Vec<_>>()
    .join("\n")
}

pub fn conv(s: &str) -> Option<MacroToken<'_>> {
  if let Ok(i) = Identifier::try_from(s) {
    return Some(i.into());
  }
  if let Ok(l) = Lit::try_from(s) {
    return Some(l.into());
  }
  if let Ok(l) = IdentifierContinue::try_from(s) {
    return Some(l.into());
  }
  if let Ok(l) = Punctuation::try_from(s) {
    return Some(l.into());
  }
  if let Ok(l) = Comment::try_from(s) {
    return Some(l.into());
  }
  None
}

pub fn show(t: &MacroToken) -> String {
  match t {
    MacroToken::Arg(a) => format!("<{a:?}>"),
    MacroToken::Identifier(i) => i.as_str().to_string(),
    MacroToken::IdentifierContinue(i) => i.as_str().to_string(),
    MacroToken::Lit(Lit::String(LitString::Ordinary(b))) => format!("{:?}", String::from_utf8_lossy(b)),
    MacroToken::Lit(l) => format!("{l:?}"),
    MacroToken::Punctuation(p) => PUNCTS.iter().find(|s| p == **s).map(|s| s.to_string()).unwrap_or_else(|| format!("{p:?}")),
    MacroToken::Comment(_) => "/*c*/".into(),
  }
}
pub fn shows(t: &[MacroToken]) -> String {
  t.iter().map(show).collect::<Vec<_>>().join(" ")
}
pub fn showt(t: &[T]) -> String {
  t.iter()
    .map(|t| match &t.k {
      K::Str(p) => format!("{}{:?}", t.s, str_text(p)),
      _ => t.s.clone(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}

/// Does `bytes` spell the pieces, with any blanks between (not around) them?
pub fn spaced(bytes: &[u8], pieces: &[&str]) -> bool {
  fn go(b: &[u8], p: &[&str], first: bool) -> bool {
    let Some((h, rest)) = p.split_first() else { return b.is_empty() };
    let mut b = b;
    loop {
      if b.starts_with(h.as_bytes()) && go(&b[h.len()..], rest, false) {
        return true;
      }
      if !first && b.first() == Some(&b' ') {
        b = &b[1..];
      } else {
        return false;
      }
    }
  }
  go(bytes, pieces, true)
}

pub fn is_punct(t: &MacroToken, p: &str) -> bool {
  matches!(t, MacroToken::Punctuation(q) if *q == p)
}

/// One segment of a run of adjacent string literals.
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
  Text(Vec<u8>),
  Hole(String),
}

fn strip(b: &[u8]) -> Vec<u8> {
  b.iter().copied().filter(|c| *c != b' ').collect()
}

/// Parse a run of string literals and `# <hole>` pairs from the crate's output.
fn run(ts: &[MacroToken]) -> (usize, Vec<Seg>) {
  let mut i = 0;
  let mut segs: Vec<Seg> = vec![];
  while i < ts.len() {
    match &ts[i] {
      MacroToken::Lit(Lit::String(LitString::Ordinary(b))) => {
        push(&mut segs, Seg::Text(strip(b)));
        i += 1;
      },
      t if is_punct(t, "#") && i + 1 < ts.len() => match &ts[i + 1] {
        MacroToken::Identifier(id) if id.as_str() == "__LINE__" || id.as_str() == "__FILE__" => {
          push(&mut segs, Seg::Hole(id.as_str().into()));
          i += 2;
        },
        _ => break,
      },
      MacroToken::Comment(_) => i += 1,
      _ => break,
    }
  }
  (i, segs)
}
fn push(segs: &mut Vec<Seg>, s: Seg) {
  if let (Some(Seg::Text(a)), Seg::Text(b)) = (segs.last_mut(), &s) {
    a.extend(b);
    return;
  }
  if s == Seg::Text(vec![]) {
    return;
  }
  segs.push(s)
}
fn eval_plain(s: &str) -> Option<Vec<u8>> {
  match Lit::try_from(s) {
    Ok(Lit::String(LitString::Ordinary(b))) => Some(b.to_vec()),
    _ => None,
  }
}

/// `Ok(())` if the crate's tokens are exactly the expected ones.
pub fn same(got: &[MacroToken], want: &[T]) -> Result<(), String> {
  let got: Vec<MacroToken> = got.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).cloned().collect();
  let bad = || Err(format!("crate: {}\nC:     {}", shows(&got), showt(want)));
  let mut g = 0;
  let mut w = 0;
  while w < want.len() {
    let t = &want[w];
    let holes = |k: &K| matches!(k, K::Str(p) if p.iter().any(|p| matches!(p, Piece::Line(_))));
    // A run of adjacent strings of which one holds a compile-time value is compared as one text.
    let end = (w..want.len()).take_while(|i| matches!(want[*i].k, K::Str(_)) && want[*i].s.is_empty() || eval_plain(&want[*i].s).is_some()).last();
    if let Some(e) = end {
      if (w..=e).any(|i| holes(&want[i].k)) {
        let mut segs = vec![];
        for t in &want[w..=e] {
          match &t.k {
            K::Str(p) => {
              for p in p {
                match p {
                  Piece::S(s) => push(&mut segs, Seg::Text(strip(s.as_bytes()))),
                  Piece::Line(s) => push(&mut segs, Seg::Hole(s.clone())),
                }
              }
            },
            _ => push(&mut segs, Seg::Text(strip(&eval_plain(&t.s).unwrap()))),
          }
        }
        let (n, gs) = run(&got[g..]);
        if gs != segs {
          return bad();
        }
        g += n;
        w = e + 1;
        continue;
      }
    }
    let Some(x) = got.get(g) else { return bad() };
    let ok = match &t.k {
      K::Str(p) => {
        let ps: Vec<&str> = p.iter().map(|p| match p {
          Piece::S(s) | Piece::Line(s) => s.as_str(),
        }).collect();
        match (t.s.as_str(), x) {
          ("", MacroToken::Lit(Lit::String(LitString::Ordinary(b)))) => spaced(b, &ps),
          ("u8", MacroToken::Lit(Lit::String(LitString::Utf8(b)))) => spaced(b.as_bytes(), &ps),
          ("u", MacroToken::Lit(Lit::String(LitString::Utf16(b)))) => spaced(b.as_bytes(), &ps),
          ("U", MacroToken::Lit(Lit::String(LitString::Utf32(b)))) => spaced(b.as_bytes(), &ps),
          ("L", MacroToken::Lit(Lit::String(LitString::Wide(b)))) => spaced(&b.iter().map(|c| *c as u8).collect::<Vec<_>>(), &ps),
          _ => false,
        }
      },
      _ => conv(&t.s).is_some_and(|e| &e == x),
    };
    if !ok {
      return bad();
    }
    g += 1;
    w += 1;
  }
  if g != got.len() {
    return bad();
  }
  Ok(())
}

pub fn err_kind(e: &ExpansionError) -> E {
  match e {
    ExpansionError::MacroNotFound => E::NotFound,
    ExpansionError::InvalidToken(s) => E::InvalidToken(s.clone()),
    ExpansionError::FnMacroArgumentError { name, required, given } => E::Arity { name: name.clone(), required: *required, given: *given },
    ExpansionError::ConcatBegin => E::ConcatBegin,
    ExpansionError::ConcatEnd => E::ConcatEnd,
    ExpansionError::NonVariadicVarArgs => E::VarArgs,
    ExpansionError::NonUniqueArgument(s) => E::Dup(s.clone()),
    ExpansionError::StringifyNonArgument => E::StringifyNonArg,
    ExpansionError::InvalidConcat => E::InvalidConcat,
    ExpansionError::InvalidArgumentName => E::BadParam,
  }
}

/// The reference result; a token that is no literal of the crate's repertoire counts as an invalid token.
pub fn finish(r: Result<Vec<T>, E>) -> Result<Vec<T>, E> {
  let r = r?;
  for t in &r {
    if !matches!(t.k, K::Str(_)) && conv(&t.s).is_none() {
      return Err(E::InvalidToken(t.s.clone()));
    }
  }
  Ok(r)
}
