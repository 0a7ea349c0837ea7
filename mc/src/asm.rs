//! Inline assembly: what GCC makes of a statement, what `rustc` makes of the generated macro call, and their
//! common effect on the machine of `sem`.

use crate::sem::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Piece {
  Text(String),
  /// Operand number, modifier in Rust's notation.
  Op(usize, String),
}

/// Lines of a template without the white space around them.
pub type Lines = Vec<Vec<Piece>>;

#[derive(Default)]
struct Build {
  lines: Lines,
  text: String,
}
impl Build {
  fn new() -> Self {
    Build { lines: vec![vec![]], text: String::new() }
  }
  fn flush(&mut self) {
    let t = std::mem::take(&mut self.text);
    if !t.is_empty() {
      self.lines.last_mut().unwrap().push(Piece::Text(t));
    }
  }
  fn ch(&mut self, c: char) {
    if c == '\n' {
      self.flush();
      self.lines.push(vec![]);
    } else {
      self.text.push(c);
    }
  }
  fn op(&mut self, n: usize, m: &str) {
    self.flush();
    self.lines.last_mut().unwrap().push(Piece::Op(n, m.into()));
  }
  fn done(mut self) -> Lines {
    self.flush();
    for l in &mut self.lines {
      if let Some(Piece::Text(t)) = l.first_mut() {
        *t = t.trim_start().into();
      }
      if let Some(Piece::Text(t)) = l.last_mut() {
        *t = t.trim_end().into();
      }
      l.retain(|p| *p != Piece::Text(String::new()));
    }
    self.lines
  }
}

/// A template as GCC reads it, on a target without dialect alternatives.
pub fn c_template(s: &str, extended: bool) -> Result<Lines, String> {
  let mut b = Build::new();
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < c.len() {
    if c[i] != '%' || !extended {
      b.ch(c[i]);
      i += 1;
      continue;
    }
    i += 1;
    let digits = |i: usize| c[i..].iter().take_while(|c| c.is_ascii_digit()).count();
    let number = |i: usize| c[i..i + digits(i)].iter().collect::<String>().parse::<usize>().map_err(|_| "operand number".to_string());
    match c.get(i) {
      Some('%') => {
        b.ch('%');
        i += 1;
      },
      Some(d) if d.is_ascii_digit() => {
        b.op(number(i)?, "");
        i += digits(i);
      },
      Some(m) if m.is_ascii_alphabetic() && c.get(i + 1).map_or(false, |c| c.is_ascii_digit()) => {
        let m = match m {
          'b' => "l",
          'h' => "h",
          'w' => "x",
          'k' => "e",
          'q' => "r",
          _ => "?",
        };
        b.op(number(i + 1)?, m);
        i += 1 + digits(i + 1);
      },
      _ => return Err("stray %".into()),
    }
  }
  Ok(b.done())
}

/// A template as `asm!` reads it.
pub fn rust_template(parts: &[String]) -> Result<Lines, String> {
  let mut b = Build::new();
  let s = parts.join("\n");
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut next = 0;
  while i < c.len() {
    match c[i] {
      '{' if c.get(i + 1) == Some(&'{') => {
        b.ch('{');
        i += 2;
      },
      '}' if c.get(i + 1) == Some(&'}') => {
        b.ch('}');
        i += 2;
      },
      '}' => return Err(format!("unmatched }} in {s:?}")),
      '{' => {
        let Some(n) = c[i..].iter().position(|c| *c == '}') else { return Err(format!("unmatched {{ in {s:?}")) };
        let inner: String = c[i + 1..i + n].iter().collect();
        let (name, m) = inner.split_once(':').unwrap_or((&inner, ""));
        let k = if name.is_empty() {
          next += 1;
          next - 1
        } else {
          name.trim().parse().map_err(|_| format!("operand {name:?} in {s:?}"))?
        };
        b.op(k, m);
        i += n + 1;
      },
      ch => {
        b.ch(ch);
        i += 1;
      },
    }
  }
  Ok(b.done())
}

pub struct Op {
  pub class: String,
  pub inn: Option<T>,
  /// Where the result goes.
  pub out: Option<(String, Box<dyn FnOnce(&mut M, T) -> Result<(), Stop>>)>,
}

pub struct Stmt {
  pub global: bool,
  pub att: bool,
  pub lines: Lines,
  pub ops: Vec<Op>,
  pub regs: BTreeSet<String>,
  pub memory: bool,
  pub cc: bool,
}

/// Whether the template has AT&T syntax.
pub fn att(l: &Lines) -> bool {
  l.iter().any(|l| {
    l.iter().any(|p| matches!(p, Piece::Text(t) if t.contains('%') || t.contains('$')))
      || l.windows(2).any(|w| matches!(w, [Piece::Text(t), Piece::Op(..)] if t.ends_with('(')))
  })
}
/// Whether the template leaves the function it is in.
pub fn global(l: &Lines) -> bool {
  l.iter().any(|l| matches!(l.first(), Some(Piece::Text(t)) if [".globl", ".global", ".section"].iter().any(|s| t.starts_with(s))))
}

impl Stmt {
  pub fn run(self, m: &mut M) -> Result<(), Stop> {
    let keys: Vec<String> = self
      .ops
      .iter()
      .map(|o| {
        let i = o.inn.as_ref().map(|t| format!(" in {}", strip(t.clone()))).unwrap_or_default();
        let p = o.out.as_ref().map(|(n, _)| format!(" out {n}")).unwrap_or_default();
        format!("[{}{i}{p}]", o.class)
      })
      .collect();
    let mut text = vec![];
    for l in &self.lines {
      let mut s = String::new();
      for p in l {
        match p {
          Piece::Text(t) => s.push_str(&format!("{t:?}")),
          Piece::Op(n, md) => {
            let Some(k) = keys.get(*n) else { return Err(Stop::Bad(format!("the template refers to operand {n} of {}", keys.len()))) };
            s.push_str(&format!("{k}{}{md}", if md.is_empty() { "" } else { ":" }));
          },
        }
      }
      text.push(s);
    }
    let mut sorted = keys.clone();
    sorted.sort();
    let ev = format!(
      "asm{}{} {text:?} operands {sorted:?} clobbers {:?}{}{}",
      if self.global { " global" } else { "" },
      if self.att { " AT&T" } else { "" },
      self.regs,
      if self.memory { " memory" } else { "" },
      if self.cc { " cc" } else { "" },
    );
    let n = m.ev.iter().filter(|e| matches!(e, Ev::Other(_))).count();
    m.ev.push(Ev::Other(ev));
    // The same result for operands which look the same.
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut outs: Vec<(String, _)> = keys.into_iter().zip(self.ops).filter_map(|(k, o)| o.out.map(|o| (k, o.1))).collect();
    outs.sort_by(|a, b| a.0.cmp(&b.0));
    for (k, w) in outs {
      let c = seen.entry(k.clone()).or_default();
      *c += 1;
      w(m, T::Leaf(format!("asm{n}{k}{c}")))?;
    }
    Ok(())
  }
}

pub fn place_name(p: &Rc<P>) -> String {
  p.to_string()
}

/// The tokens of a call of `asm!`.
pub struct Call {
  pub template: Vec<String>,
  pub ops: Vec<(String, String, syn::Expr, Option<syn::Expr>)>,
  pub regs: Vec<String>,
  pub abi: bool,
  pub options: BTreeSet<String>,
}

impl syn::parse::Parse for Call {
  fn parse(s: syn::parse::ParseStream) -> syn::Result<Self> {
    let mut c = Call { template: vec![], ops: vec![], regs: vec![], abi: false, options: BTreeSet::new() };
    // Template, operands, clobbers and options in this order.
    let mut stage = 0;
    let mut at = |n: usize, span: proc_macro2::Span| {
      if n < stage {
        return Err(syn::Error::new(span, "arguments of asm! in the wrong order"));
      }
      stage = n;
      Ok(())
    };
    while !s.is_empty() {
      if s.peek(syn::LitStr) {
        let l: syn::LitStr = s.parse()?;
        at(0, l.span())?;
        c.template.push(l.value());
      } else {
        let id: proc_macro2::Ident = s.call(syn::ext::IdentExt::parse_any)?;
        let name = id.to_string();
        let content;
        syn::parenthesized!(content in s);
        match name.as_str() {
          "options" => {
            at(3, id.span())?;
            for o in content.parse_terminated(<proc_macro2::Ident as syn::ext::IdentExt>::parse_any, syn::Token![,])? {
              if !c.options.insert(o.to_string()) {
                return Err(syn::Error::new(o.span(), "the same option twice"));
              }
            }
          },
          "clobber_abi" => {
            at(2, id.span())?;
            content.parse::<syn::LitStr>()?;
            c.abi = true;
          },
          "in" | "out" | "inout" | "lateout" | "inlateout" => {
            if content.peek(syn::LitStr) {
              at(2, id.span())?;
              let l: syn::LitStr = content.parse()?;
              let e: syn::Expr = s.parse()?;
              if name != "out" && name != "lateout" || !matches!(e, syn::Expr::Infer(_)) {
                return Err(syn::Error::new(id.span(), "an operand in a named register"));
              }
              c.regs.push(l.value());
            } else {
              at(1, id.span())?;
              let class: proc_macro2::Ident = content.parse()?;
              let e: syn::Expr = s.parse()?;
              let to = if s.peek(syn::Token![=>]) {
                s.parse::<syn::Token![=>]>()?;
                Some(s.parse()?)
              } else {
                None
              };
              c.ops.push((name, class.to_string(), e, to));
            }
          },
          n => return Err(syn::Error::new(id.span(), format!("unexpected {n} in asm!"))),
        }
      }
      if !s.is_empty() {
        s.parse::<syn::Token![,]>()?;
      }
    }
    Ok(c)
  }
}
