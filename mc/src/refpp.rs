//! Reference C preprocessor: macro replacement with explicit hide sets (Prosser's algorithm),
//! written independently of the crate. It works on spellings only.

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Hs = Rc<BTreeSet<String>>;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
  Tok,
  /// String produced by `#`: the spellings of the stringified tokens.
  Str(Vec<Piece>),
  /// `__LINE__`/`__FILE__` after macro expansion (its value is only known to the compiler).
  Line,
  Placemarker,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
  S(String),
  Line(String),
}

#[derive(Clone, Debug)]
pub struct T {
  pub s: String,
  pub k: K,
  pub hs: Hs,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
  Arity { name: String, required: usize, given: usize },
  ConcatBegin,
  ConcatEnd,
  InvalidConcat,
  StringifyNonArg,
  VarArgs,
  Dup(String),
  BadParam,
  InvalidToken(String),
  NotFound,
  /// Outside what C (or this model) defines.
  Unspecified(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
  Var(Vec<String>),
  Fn(Vec<String>, Vec<String>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
  Intersect,
  Union,
  /// No hide sets: a macro is disabled while tokens of its replacement are still unread
  /// (the reading of C that compilers with a context stack implement).
  Context,
}

pub struct Pp<'a> {
  pub defs: &'a BTreeMap<String, Def>,
  pub mode: Mode,
  pub steps: u64,
  /// Set when hide sets of name and `)` differ, i.e. where C leaves the nesting unspecified.
  pub straddled: bool,
  /// A macro name was formed by pasting.
  pub pasted_names: Vec<String>,
  /// A string made by `#` was itself an operand of `#`.
  pub restringified: bool,
  /// `Mode::Context`: the macros that are being replaced.
  disabled: BTreeSet<String>,
}

pub fn is_comment(s: &str) -> bool {
  (s.len() >= 4 && s.starts_with("/*") && s.ends_with("*/")) || s.starts_with("//")
}

pub fn is_ident(s: &str) -> bool {
  let mut c = s.chars();
  matches!(c.next(), Some(f) if f == '_' || f.is_alphabetic()) && c.all(|c| c == '_' || c.is_alphanumeric())
}

pub const PUNCTS: &[&str] = &[
  "[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">", "<=", ">=",
  "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|=", ",",
  "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:",
];

pub fn is_ppnumber(s: &str) -> bool {
  let b: Vec<char> = s.chars().collect();
  let mut i = 0;
  if b.first() == Some(&'.') {
    i = 1;
  }
  if !matches!(b.get(i), Some(c) if c.is_ascii_digit()) {
    return false;
  }
  i += 1;
  while i < b.len() {
    let c = b[i];
    if matches!(c, 'e' | 'E' | 'p' | 'P') && matches!(b.get(i + 1), Some('+' | '-')) {
      i += 2;
    } else if c == '.' || c == '_' || c.is_alphanumeric() {
      i += 1;
    } else {
      return false;
    }
  }
  true
}

pub fn is_quoted(s: &str) -> bool {
  let r = ["u8", "u", "U", "L", ""].iter().find_map(|p| {
    let r = s.strip_prefix(p)?;
    if r.starts_with('"') || r.starts_with('\'') {
      Some(r)
    } else {
      None
    }
  });
  let Some(r) = r else { return false };
  let b: Vec<char> = r.chars().collect();
  let q = b[0];
  let mut i = 1;
  while i < b.len() {
    if b[i] == '\\' {
      i += 2;
      continue;
    }
    if b[i] == '\n' {
      return false;
    }
    if b[i] == q {
      return i + 1 == b.len() && (q == '"' || b.len() > 2);
    }
    i += 1;
  }
  false
}

/// Is the spelling one preprocessing token?
pub fn is_pptoken(s: &str) -> bool {
  is_ident(s) || is_ppnumber(s) || PUNCTS.contains(&s) || is_quoted(s)
}

impl<'a> Pp<'a> {
  pub fn new(defs: &'a BTreeMap<String, Def>, mode: Mode) -> Self {
    Pp { defs, mode, steps: 0, straddled: false, pasted_names: vec![], restringified: false, disabled: BTreeSet::new() }
  }

  fn tok(s: &str) -> T {
    T { s: s.into(), k: K::Tok, hs: Rc::new(BTreeSet::new()) }
  }

  /// Expand an expression the way `MacroSet::expand` takes it: as the body of a nameless object-like macro.
  pub fn expand_expr(&mut self, body: &[String]) -> Result<Vec<T>, E> {
    let hs = Rc::new(BTreeSet::new());
    let b = self.subst_body(body, &[], None, &hs)?;
    self.expand(b)
  }

  /// Check the number of arguments and bind them to the parameters.
  fn bind(&self, name: &str, params: &[String], body: &[String], args: &[Vec<T>]) -> Result<(Vec<String>, Vec<Vec<T>>), E> {
    let params = check_params(params)?;
    let variadic = params.last().is_some_and(|p| p == "...");
    let given = args.len();
    let n = params.len();
    let ok = if variadic { given + 1 >= n } else { given == n || (n == 0 && given == 1 && args[0].is_empty()) };
    check_body(&params, body, true)?;
    if !ok {
      return Err(E::Arity { name: name.into(), required: if variadic { n - 1 } else { n }, given });
    }
    let mut bound: Vec<Vec<T>> = vec![];
    for (i, _) in params.iter().enumerate() {
      if variadic && i + 1 == n {
        let mut rest = vec![];
        for (j, a) in args.iter().enumerate().skip(i) {
          if j > i {
            rest.push(Self::tok(","));
          }
          rest.extend(a.iter().cloned());
        }
        bound.push(rest);
      } else {
        bound.push(args[i].clone());
      }
    }
    Ok((params, bound))
  }

  /// Expansion with a stack of contexts, one per replacement that is being read.
  fn expand_context(&mut self, ts: Vec<T>) -> Result<Vec<T>, E> {
    type Stack = Vec<(std::collections::VecDeque<T>, Option<String>)>;
    fn next(me: &mut Pp, st: &mut Stack) -> Option<T> {
      loop {
        let (top, name) = st.last_mut()?;
        if let Some(mut t) = top.pop_front() {
          if t.k == K::Tok && me.disabled.contains(&t.s) {
            t.hs = Rc::new([t.s.clone()].into_iter().collect());
          }
          return Some(t);
        }
        if let Some(n) = name.take() {
          me.disabled.remove(&n);
        }
        st.pop();
      }
    }
    let none: Hs = Rc::new(BTreeSet::new());
    let mut st: Stack = vec![(ts.into(), None)];
    let mut out = vec![];
    let saved = self.disabled.clone();
    while let Some(t) = next(self, &mut st) {
      self.steps += 1;
      if self.steps > 200_000 {
        return Err(E::Unspecified("model step limit"));
      }
      if t.k != K::Tok || !is_ident(&t.s) || t.hs.contains(&t.s) {
        out.push(t);
        continue;
      }
      match self.defs.get(&t.s).cloned() {
        Some(Def::Var(body)) => {
          let r = self.subst_body(&body, &[], None, &none)?;
          self.disabled.insert(t.s.clone());
          st.push((r.into(), Some(t.s)));
        },
        Some(Def::Fn(params, body)) => {
          match next(self, &mut st) {
            Some(o) if o.k == K::Tok && o.s == "(" => {
              let mut depth = 0usize;
              let mut args: Vec<Vec<T>> = vec![vec![]];
              loop {
                let Some(n) = next(self, &mut st) else { return Err(E::Unspecified("unterminated macro call")) };
                match if n.k == K::Tok { n.s.as_str() } else { "" } {
                  ")" if depth == 0 => break,
                  "(" => depth += 1,
                  ")" => depth -= 1,
                  "," if depth == 0 => {
                    args.push(vec![]);
                    continue;
                  },
                  _ => {},
                }
                args.last_mut().unwrap().push(n);
              }
              let (params, bound) = self.bind(&t.s, &params, &body, &args)?;
              let r = self.subst_body(&body, &params, Some(&bound), &none)?;
              self.disabled.insert(t.s.clone());
              st.push((r.into(), Some(t.s)));
            },
            Some(o) => {
              out.push(t);
              st.push(([o].into_iter().collect(), None));
            },
            None => out.push(t),
          }
        },
        None => {
          let mut t = t;
          if t.s == "__LINE__" || t.s == "__FILE__" {
            t.k = K::Line;
          }
          out.push(t)
        },
      }
    }
    self.disabled = saved;
    Ok(out)
  }

  pub fn expand_var(&mut self, name: &str) -> Result<Vec<T>, E> {
    match self.defs.get(name) {
      Some(Def::Var(body)) => {
        let hs: Hs = Rc::new([name.to_string()].into_iter().collect());
        let body = body.clone();
        if self.mode == Mode::Context {
          self.disabled = [name.to_string()].into_iter().collect();
          let b = self.subst_body(&body, &[], None, &Rc::new(BTreeSet::new()))?;
          return self.expand(b);
        }
        let b = self.subst_body(&body, &[], None, &hs)?;
        self.expand(b)
      },
      _ => Err(E::NotFound),
    }
  }

  /// `name(args)` as the whole text.
  pub fn call(&mut self, name: &str, args: &[Vec<String>]) -> Result<Vec<T>, E> {
    let mut ts = vec![Self::tok(name), Self::tok("(")];
    for (i, a) in args.iter().enumerate() {
      if i > 0 {
        ts.push(Self::tok(","));
      }
      ts.extend(a.iter().map(|t| Self::tok(t)));
    }
    ts.push(Self::tok(")"));
    self.expand(ts)
  }

  fn expand(&mut self, ts: Vec<T>) -> Result<Vec<T>, E> {
    if self.mode == Mode::Context {
      return self.expand_context(ts);
    }
    let mut input: Vec<T> = ts.into_iter().rev().collect();
    let mut out = vec![];
    while let Some(t) = input.pop() {
      self.steps += 1;
      if self.steps > 200_000 {
        return Err(E::Unspecified("model step limit"));
      }
      if t.k != K::Tok || !is_ident(&t.s) || t.hs.contains(&t.s) {
        out.push(t);
        continue;
      }
      match self.defs.get(&t.s) {
        Some(Def::Var(body)) => {
          let mut hs = (*t.hs).clone();
          hs.insert(t.s.clone());
          let r = self.subst_body(body, &[], None, &Rc::new(hs))?;
          input.extend(r.into_iter().rev());
        },
        Some(Def::Fn(params, body)) if input.last().is_some_and(|n| n.k == K::Tok && n.s == "(") => {
          let mut depth = 0usize;
          let mut args: Vec<Vec<T>> = vec![vec![]];
          let mut i = input.len() - 1;
          let close;
          loop {
            if i == 0 {
              return Err(E::Unspecified("unterminated macro call"));
            }
            i -= 1;
            let n = input[i].clone();
            let p = if n.k == K::Tok { n.s.as_str() } else { "" };
            match p {
              ")" if depth == 0 => {
                close = n;
                break;
              },
              "(" => depth += 1,
              ")" => depth -= 1,
              "," if depth == 0 => {
                args.push(vec![]);
                continue;
              },
              _ => {},
            }
            args.last_mut().unwrap().push(n);
          }
          input.truncate(i);
          let mut hs: BTreeSet<String> = match self.mode {
            Mode::Intersect => t.hs.intersection(&close.hs).cloned().collect(),
            _ => t.hs.union(&close.hs).cloned().collect(),
          };
          if t.hs != close.hs {
            self.straddled = true;
          }
          hs.insert(t.s.clone());
          let (params, body) = (params.clone(), body.clone());
          let (params, bound) = self.bind(&t.s, &params, &body, &args)?;
          let r = self.subst_body(&body, &params, Some(&bound), &Rc::new(hs))?;
          input.extend(r.into_iter().rev());
        },
        _ => {
          let mut t = t;
          if t.s == "__LINE__" || t.s == "__FILE__" {
            t.k = K::Line;
          }
          out.push(t)
        },
      }
    }
    Ok(out)
  }

  fn stringify(&mut self, arg: &[T]) -> T {
    let mut ps = vec![];
    for t in arg {
      match &t.k {
        K::Tok => ps.push(Piece::S(t.s.clone())),
        K::Line => ps.push(Piece::Line(t.s.clone())),
        K::Str(p) => {
          // The spelling of a string literal with that content.
          self.restringified = true;
          if p.iter().any(|p| matches!(p, Piece::Line(_))) {
            ps.push(Piece::Line("?".into()));
          } else {
            // Piece by piece: what is between them is up to the implementation.
            let mut q: Vec<String> = p.iter().map(|p| quote(&str_text(std::slice::from_ref(p)))).collect();
            let n = q.len();
            for (i, q) in q.iter_mut().enumerate() {
              let inner = q[1..q.len() - 1].to_string();
              *q = format!("{}{inner}{}", if i == 0 { "\"" } else { "" }, if i + 1 == n { "\"" } else { "" });
            }
            if n == 0 {
              q.push("\"\"".into());
            }
            ps.extend(q.into_iter().map(Piece::S));
          }
        },
        K::Placemarker => {},
      }
    }
    T { s: String::new(), k: K::Str(ps), hs: Rc::new(BTreeSet::new()) }
  }

  fn glue(&mut self, l: T, r: T) -> Result<T, E> {
    if l.k == K::Placemarker {
      return Ok(r);
    }
    if r.k == K::Placemarker {
      return Ok(l);
    }
    let sp = |t: &T| match &t.k {
      K::Str(p) => quote(&str_text(p)),
      _ => t.s.clone(),
    };
    if l.k == K::Line || r.k == K::Line {
      return Err(E::Unspecified("pasting an expanded __LINE__"));
    }
    if let (K::Str(p), true) = (&r.k, ["u8", "u", "U", "L"].contains(&l.s.as_str())) {
      return Ok(T { s: l.s.clone(), k: K::Str(p.clone()), hs: Rc::new(BTreeSet::new()) });
    }
    let s = format!("{}{}", sp(&l), sp(&r));
    if !is_pptoken(&s) {
      return Err(E::InvalidConcat);
    }
    if self.defs.contains_key(&s) {
      self.pasted_names.push(s.clone());
    }
    Ok(T { s, k: K::Tok, hs: Rc::new(l.hs.intersection(&r.hs).cloned().collect()) })
  }

  pub fn subst(&mut self, body: &[String], params: &[String], args: &[Vec<T>]) -> Result<Vec<T>, E> {
    self.subst_body(body, params, Some(args), &Rc::new(BTreeSet::new()))
  }

  /// Replace parameters and carry out `#` and `##`; `args` is `None` for object-like macros.
  fn subst_body(&mut self, body: &[String], params: &[String], args: Option<&[Vec<T>]>, hs: &Hs) -> Result<Vec<T>, E> {
    let fnlike = args.is_some();
    let body: Vec<&String> = body.iter().filter(|s| !is_comment(s)).collect();
    if !fnlike {
      check_body(&[], &body.iter().map(|s| s.to_string()).collect::<Vec<_>>(), false)?;
    }
    let param = |s: &str| -> Option<usize> {
      if !fnlike {
        return None;
      }
      if s == "__VA_ARGS__" {
        return params.iter().position(|p| p == "...");
      }
      params.iter().position(|p| p == s && p != "...")
    };
    let pm = T { s: String::new(), k: K::Placemarker, hs: Rc::new(BTreeSet::new()) };
    let raw = |a: &[T]| if a.is_empty() { vec![pm.clone()] } else { a.to_vec() };
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    while i < body.len() {
      let s = body[i].as_str();
      let next_is_paste = body.get(i + 1).is_some_and(|s| *s == "##");
      if s == "##" {
        let Some(l) = out.pop() else { return Err(E::ConcatBegin) };
        i += 1;
        let Some(r) = body.get(i) else { return Err(E::ConcatEnd) };
        let mut rs = if *r == "##" {
          return Err(E::Unspecified("consecutive ##"));
        } else if *r == "#" && fnlike {
          i += 1;
          let p = body.get(i).and_then(|s| param(s)).ok_or(E::StringifyNonArg)?;
          vec![self.stringify(&args.unwrap()[p])]
        } else if let Some(p) = param(r) {
          raw(&args.unwrap()[p])
        } else {
          vec![Self::tok(r)]
        };
        let rest = rs.split_off(1);
        let g = self.glue(l, rs.pop().unwrap())?;
        out.push(g);
        out.extend(rest);
      } else if s == "#" && fnlike {
        i += 1;
        let p = body.get(i).and_then(|s| param(s)).ok_or(E::StringifyNonArg)?;
        out.push(self.stringify(&args.unwrap()[p]));
      } else if let Some(p) = param(s) {
        let a = &args.unwrap()[p];
        if next_is_paste {
          out.extend(raw(a));
        } else {
          let e = self.expand(a.clone())?;
          out.extend(e);
        }
      } else {
        out.push(Self::tok(s));
      }
      i += 1;
    }
    out.retain(|t| t.k != K::Placemarker);
    for t in &mut out {
      let mut h = (*t.hs).clone();
      h.extend(hs.iter().cloned());
      t.hs = Rc::new(h);
    }
    Ok(out)
  }
}

pub fn str_text(p: &[Piece]) -> String {
  p.iter()
    .map(|p| match p {
      Piece::S(s) => s.clone(),
      Piece::Line(s) => s.clone(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}

pub fn quote(s: &str) -> String {
  format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

pub fn check_params(params: &[String]) -> Result<Vec<String>, E> {
  let mut out: Vec<String> = vec![];
  let mut variadic = false;
  for p in params.iter().filter(|p| !is_comment(p)) {
    if p == "..." {
      if variadic {
        return Err(E::Dup("...".into()));
      }
      variadic = true;
    } else if is_ident(p) && p != "__VA_ARGS__" {
      if variadic {
        return Err(E::BadParam);
      }
      if out.contains(p) {
        return Err(E::Dup(p.clone()));
      }
    } else {
      return Err(E::BadParam);
    }
    out.push(p.clone());
  }
  Ok(out)
}

pub fn check_body(params: &[String], body: &[String], _fnlike: bool) -> Result<(), E> {
  let variadic = params.last().is_some_and(|p| p == "...");
  if !variadic && body.iter().any(|b| b == "__VA_ARGS__") {
    return Err(E::VarArgs);
  }
  Ok(())
}
