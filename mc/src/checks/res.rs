//! C15: function or macro, its signature and fragments; C24: names come from the context.

use crate::cexpr::{self, E, INT, MIN, TY};
use crate::engine::*;
use crate::gen::{self, Cx, Gen};
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

pub fn show(t: &impl ToTokens) -> String {
  let s = t.to_token_stream().to_string();
  let mut out = String::new();
  let mut pend = false;
  for c in s.chars() {
    if c.is_whitespace() {
      pend = true;
      continue;
    }
    let w = |c: char| c.is_alphanumeric() || c == '_';
    if pend && out.chars().last().map_or(false, |l| w(l) || l == '"') && w(c) {
      out.push(' ');
    }
    pend = false;
    out.push(c);
  }
  out
}

// --- the types of the generated Rust code --------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum RT {
  K(String),
  Int,
  Float,
  /// Whatever is needed there.
  Any,
}
#[derive(Debug)]
pub enum Bad {
  /// Not understood: no verdict.
  Huh(String),
  Ill(String),
}
type R<T> = Result<T, Bad>;

pub struct RustTypes<'a> {
  pub vars: BTreeMap<String, String>,
  pub cx: &'a Cx,
  pub unresolved: Vec<String>,
}

const INTS: &[&str] = &[
  "c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_size_t", "c_ssize_t", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128", "u128", "usize", "isize",
];
fn is_int(t: &str) -> bool {
  INTS.contains(&t)
}
fn is_float(t: &str) -> bool {
  matches!(t, "f32" | "f64")
}
fn pointee(t: &str) -> Option<&str> {
  t.strip_prefix("*mut ").or_else(|| t.strip_prefix("*const ")).or_else(|| if t.starts_with("*mut*") { t.strip_prefix("*mut") } else { None })
}
fn ptr_to(t: &str) -> String {
  if t.starts_with('*') {
    format!("*mut{t}")
  } else {
    format!("*mut {t}")
  }
}

impl<'a> RustTypes<'a> {
  fn unify(&self, a: RT, b: RT, what: &str) -> R<RT> {
    use RT::*;
    Ok(match (a, b) {
      (Any, x) | (x, Any) => x,
      (K(a), K(b)) if a == b => K(a),
      (K(a), Int) | (Int, K(a)) if is_int(&a) => K(a),
      (K(a), Float) | (Float, K(a)) if is_float(&a) => K(a),
      (Int, Int) => Int,
      (Float, Float) => Float,
      (a, b) => return Err(Bad::Ill(format!("{what}: {a:?} and {b:?}"))),
    })
  }
  fn numeric(&self, t: RT, what: &str) -> R<RT> {
    match &t {
      RT::K(k) if !is_int(k) && !is_float(k) => Err(Bad::Ill(format!("{what} of {k}"))),
      _ => Ok(t),
    }
  }
  fn block(&mut self, s: &[syn::Stmt]) -> R<RT> {
    let mut last = RT::K("()".into());
    for s in s {
      last = RT::K("()".into());
      match s {
        syn::Stmt::Local(l) => {
          let init = match &l.init {
            Some(i) => self.ty(&i.expr)?,
            None => RT::Any,
          };
          match &l.pat {
            syn::Pat::Type(p) => {
              let t = show(&p.ty);
              self.unify(RT::K(t.clone()), init, "initialiser")?;
              if let syn::Pat::Ident(i) = &*p.pat {
                self.vars.insert(i.ident.to_string(), t);
              }
            },
            syn::Pat::Ident(i) => match init {
              RT::K(t) => {
                self.vars.insert(i.ident.to_string(), t);
              },
              _ => return Err(Bad::Huh("untyped local".into())),
            },
            syn::Pat::Wild(_) => {},
            _ => return Err(Bad::Huh(show(s))),
          }
        },
        syn::Stmt::Expr(e, semi) => {
          let t = self.ty(e)?;
          if semi.is_none() {
            last = t;
          }
        },
        syn::Stmt::Macro(m) => {
          let t = self.mac(&m.mac)?;
          if m.semi_token.is_none() {
            last = t;
          }
        },
        _ => return Err(Bad::Huh(show(s))),
      }
    }
    Ok(last)
  }
  fn mac(&mut self, m: &syn::Macro) -> R<RT> {
    match m.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
      Some("line") => Ok(RT::K("u32".into())),
      Some("addr_of_mut" | "addr_of") => {
        let e: syn::Expr = syn::parse2(m.tokens.clone()).map_err(|e| Bad::Ill(e.to_string()))?;
        let const_ = m.path.segments.last().unwrap().ident == "addr_of";
        match self.ty(&e)? {
          RT::K(t) => Ok(RT::K(if const_ { ptr_to(&t).replacen("mut", "const", 1) } else { ptr_to(&t) })),
          _ => Err(Bad::Ill(format!("address of {}", show(&e)))),
        }
      },
      _ => Err(Bad::Huh(show(m))),
    }
  }
  pub fn ty(&mut self, e: &syn::Expr) -> R<RT> {
    use syn::BinOp as B;
    use RT::*;
    for (_, t, x) in &self.cx.enums {
      if show(e) == *x {
        return Ok(K(t.clone()));
      }
    }
    Ok(match e {
      syn::Expr::Paren(p) => self.ty(&p.expr)?,
      syn::Expr::Group(p) => self.ty(&p.expr)?,
      syn::Expr::Lit(l) => match &l.lit {
        syn::Lit::Int(i) if i.suffix().is_empty() => Int,
        syn::Lit::Int(i) => K(i.suffix().into()),
        syn::Lit::Float(i) if i.suffix().is_empty() => Float,
        syn::Lit::Float(i) => K(i.suffix().into()),
        syn::Lit::Bool(_) => K("bool".into()),
        syn::Lit::Byte(_) => K("u8".into()),
        _ => return Err(Bad::Huh(show(e))),
      },
      syn::Expr::Path(p) => match p.path.get_ident() {
        Some(i) => {
          let n = i.to_string();
          match self.vars.get(n.trim_start_matches("r#")) {
            Some(t) => K(t.clone()),
            None => {
              self.unresolved.push(n.clone());
              return Err(Bad::Huh(n));
            },
          }
        },
        None => return Err(Bad::Huh(show(e))),
      },
      syn::Expr::Unary(u) => {
        let t = self.ty(&u.expr)?;
        match u.op {
          syn::UnOp::Neg(_) => self.numeric(t, "negation")?,
          syn::UnOp::Not(_) => match &t {
            K(k) if k != "bool" && !is_int(k) => return Err(Bad::Ill(format!("! of {k}"))),
            Float => return Err(Bad::Ill("! of a float".into())),
            _ => t,
          },
          syn::UnOp::Deref(_) => match &t {
            K(k) => match pointee(k) {
              Some(p) => K(p.into()),
              None => return Err(Bad::Ill(format!("* of {k}"))),
            },
            _ => return Err(Bad::Huh(show(e))),
          },
          _ => return Err(Bad::Huh(show(e))),
        }
      },
      syn::Expr::Binary(b) => {
        let l = self.ty(&b.left)?;
        let r = self.ty(&b.right)?;
        match b.op {
          B::Add(_) | B::Sub(_) | B::Mul(_) | B::Div(_) | B::Rem(_) => {
            let t = self.unify(l, r, &show(e))?;
            self.numeric(t, &show(e))?
          },
          B::BitAnd(_) | B::BitOr(_) | B::BitXor(_) => self.unify(l, r, &show(e))?,
          B::Shl(_) | B::Shr(_) => {
            for t in [&l, &r] {
              match t {
                K(k) if !is_int(k) => return Err(Bad::Ill(show(e))),
                Float => return Err(Bad::Ill(show(e))),
                _ => {},
              }
            }
            l
          },
          B::Eq(_) | B::Ne(_) | B::Lt(_) | B::Le(_) | B::Gt(_) | B::Ge(_) => {
            self.unify(l, r, &show(e))?;
            K("bool".into())
          },
          B::And(_) | B::Or(_) => {
            self.unify(l, K("bool".into()), &show(e))?;
            self.unify(r, K("bool".into()), &show(e))?;
            K("bool".into())
          },
          B::ShlAssign(_) | B::ShrAssign(_) => K("()".into()),
          _ => {
            self.unify(l, r, &show(e))?;
            K("()".into())
          },
        }
      },
      syn::Expr::Assign(a) => {
        let l = self.ty(&a.left)?;
        let r = self.ty(&a.right)?;
        self.unify(l, r, &show(e))?;
        K("()".into())
      },
      syn::Expr::Cast(c) => {
        self.ty(&c.expr)?;
        K(show(&c.ty))
      },
      syn::Expr::Field(f) => {
        let t = match self.ty(&f.base)? {
          K(t) => t,
          _ => return Err(Bad::Huh(show(e))),
        };
        let n = show(&f.member);
        match self.cx.fields.iter().find(|(s, g, _)| *s == t && *g == n) {
          Some((_, _, t)) => K(t.clone()),
          None if is_int(&t) || is_float(&t) || t.starts_with('*') => return Err(Bad::Ill(format!("{n} of {t}"))),
          None => return Err(Bad::Huh(show(e))),
        }
      },
      syn::Expr::If(i) => {
        let c = self.ty(&i.cond)?;
        self.unify(c, K("bool".into()), "condition")?;
        let a = self.block(&i.then_branch.stmts)?;
        match &i.else_branch {
          Some((_, x)) => {
            let b = self.ty(x)?;
            self.unify(a, b, &show(e))?
          },
          None => a,
        }
      },
      syn::Expr::Block(b) => self.block(&b.block.stmts)?,
      syn::Expr::Unsafe(b) => self.block(&b.block.stmts)?,
      syn::Expr::Macro(m) => self.mac(&m.mac)?,
      syn::Expr::MethodCall(m) => {
        let r = self.ty(&m.receiver)?;
        let name = m.method.to_string();
        for a in &m.args {
          let t = self.ty(a)?;
          let want = match name.as_str() {
            "add" | "sub" => "usize",
            "offset" => "isize",
            _ => continue,
          };
          self.unify(t, RT::K(want.into()), &show(e))?;
        }
        match m.method.to_string().as_str() {
          "into" => Any,
          "add" | "sub" | "offset" => match &r {
            K(k) if pointee(k).is_some() => r,
            _ => return Err(Bad::Ill(show(e))),
          },
          _ => return Err(Bad::Huh(show(e))),
        }
      },
      syn::Expr::Call(c) => {
        let name = show(&c.func);
        if name.ends_with("ptr::null_mut") || name.ends_with("ptr::null") {
          return Ok(Any);
        }
        if name.contains("size_of::<") {
          return Ok(K("usize".into()));
        }
        match self.cx.fns.iter().find(|f| f.0 == name) {
          Some((_, p, ret)) => {
            if p.len() != c.args.len() {
              return Err(Bad::Ill(format!("{} arguments of {name}", c.args.len())));
            }
            for (p, a) in p.iter().zip(&c.args) {
              let t = self.ty(a)?;
              self.unify(t, K(p.clone()), &format!("argument of {name}"))?;
            }
            K(if ret == "c_void" { "()".into() } else { ret.clone() })
          },
          None => {
            if !name.contains("::") && !self.vars.contains_key(&name) {
              self.unresolved.push(name.clone());
            }
            return Err(Bad::Huh(name));
          },
        }
      },
      _ => return Err(Bad::Huh(show(e))),
    })
  }
}

// --- what the C expression needs -----------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum T {
  K(String),
  Lit,
  /// Nothing tells it.
  Unk,
  /// Could be inferred or not.
  Either,
}
/// Operands of different types, or not valid: no verdict.
struct Mixed;
fn k(s: &str) -> T {
  T::K(s.into())
}

struct CTypes<'a> {
  cx: &'a Cx,
  params: &'a [&'a str],
  types: BTreeMap<String, String>,
  /// Something which a function cannot have.
  needs_macro: Option<String>,
  /// Call arguments which are parameters.
  inferred: Vec<(String, String)>,
  /// Not every type is known.
  loose: bool,
}
impl<'a> CTypes<'a> {
  fn macro_(&mut self, s: impl Into<String>) {
    self.needs_macro.get_or_insert(s.into());
  }
  /// A type name.
  fn name(&self, t: &cexpr::CT) -> String {
    t.rust.into()
  }
  fn arith(&self, a: T, b: T) -> Result<T, Mixed> {
    Ok(match (a, b) {
      (T::Lit, T::Lit) => T::Lit,
      (T::K(a), T::K(b)) if a == "bool" && (b == "bool" || b == "c_int") || b == "bool" && a == "c_int" => k("c_int"),
      (T::K(a), T::Lit) | (T::Lit, T::K(a)) if a == "bool" => k("c_int"),
      (T::K(a), T::K(b)) if a == b && (is_int(&a) || is_float(&a)) => T::K(a),
      (T::K(a), T::Lit) | (T::Lit, T::K(a)) if is_int(&a) || is_float(&a) => T::K(a),
      (T::Unk, T::Unk) | (T::Unk, T::Lit) | (T::Lit, T::Unk) => T::Unk,
      (T::K(_) | T::Either, T::Unk | T::Either) | (T::Unk | T::Either, T::K(_) | T::Either) | (T::Either, T::Lit) | (T::Lit, T::Either) => T::Either,
      _ => return Err(Mixed),
    })
  }
  fn root_is_param(&self, e: &E) -> bool {
    match e {
      E::Id(n) => self.params.contains(&n.as_str()),
      E::Dot(a, _) => self.root_is_param(a),
      _ => false,
    }
  }
  fn ty(&mut self, e: &E) -> Result<T, Mixed> {
    let t = self.ty_(e)?;
    self.loose |= t == T::Either;
    Ok(t)
  }
  /// A name which is no lvalue.
  fn is_value(&self, e: &E) -> bool {
    matches!(e, E::Id(n) if n == "__LINE__" || n == "__FILE__" || self.cx.enums.iter().any(|x| x.0 == *n))
  }
  fn ty_(&mut self, e: &E) -> Result<T, Mixed> {
    Ok(match e {
      E::Id(n) if self.params.contains(&n.as_str()) => match self.types.get(n) {
        Some(t) => k(t),
        None => T::Unk,
      },
      E::Id(n) if n == "__LINE__" || n == "__FILE__" => {
        self.macro_(n);
        T::Unk
      },
      E::Id(n) => match self.cx.enums.iter().find(|x| x.0 == *n) {
        Some((_, t, _)) => k(t),
        None => {
          self.macro_(n);
          T::Unk
        },
      },
      E::Num(..) => T::Lit,
      E::Str(..) => return Err(Mixed),
      E::Un("*", a) | E::Arrow(a, _) | E::Dot(a, _) if matches!(&**a, E::Id(n) if n == "__LINE__" || n == "__FILE__") => return Err(Mixed),
      E::Un("*", a) => match self.ty(a)? {
        T::K(t) => match pointee(&t) {
          Some(p) => k(p),
          None => return Err(Mixed),
        },
        T::Lit | T::Either => return Err(Mixed),
        t => t,
      },
      E::Un("&", a) => {
        if !cexpr::is_lvalue(a) || self.is_value(a) {
          return Err(Mixed);
        }
        if self.root_is_param(a) {
          self.macro_("address of a parameter");
        }
        match self.ty(a)? {
          T::K(t) => T::K(ptr_to(&t)),
          t => t,
        }
      },
      E::Un("!", a) => match self.ty(a)? {
        T::K(t) if !is_int(&t) && !is_float(&t) && !t.starts_with('*') && t != "bool" => return Err(Mixed),
        T::Lit => T::Lit,
        _ => k("bool"),
      },
      E::Un("++" | "--", a) | E::Post(_, a) => {
        if !cexpr::is_lvalue(a) || self.is_value(a) {
          return Err(Mixed);
        }
        if self.root_is_param(a) {
          self.macro_("modification of a parameter");
        }
        match self.ty(a)? {
          T::K(t) if is_int(&t) || is_float(&t) => T::K(t),
          T::K(_) | T::Lit => return Err(Mixed),
          t => t,
        }
      },
      E::Un(op, a) => match self.ty(a)? {
        T::K(t) if t == "bool" => k("c_int"),
        T::K(t) if *op == "~" && is_float(&t) => return Err(Mixed),
        T::K(t) if is_int(&t) || is_float(&t) => T::K(t),
        T::K(_) => return Err(Mixed),
        t => t,
      },
      E::Bin("<<" | ">>", a, b) => {
        let (a, b) = (self.ty(a)?, self.ty(b)?);
        match &b {
          T::K(t) if !is_int(t) && t != "bool" => return Err(Mixed),
          _ => {},
        }
        match (a, b) {
          (T::Lit, T::Lit) => T::Lit,
          (T::Lit, _) => T::Either,
          (T::K(t), _) if t == "bool" => k("c_int"),
          (T::K(t), _) if !is_int(&t) => return Err(Mixed),
          (a, _) => a,
        }
      },
      E::Bin("<" | "<=" | ">" | ">=" | "==" | "!=", a, b) => {
        let (a, b) = (self.ty(a)?, self.ty(b)?);
        match (&a, &b) {
          (T::K(x), T::K(y)) if x == y && x.starts_with('*') => {},
          _ => {
            self.arith(a, b)?;
          },
        }
        k("bool")
      },
      E::Bin(op, a, b) => {
        let (a, b) = (self.ty(a)?, self.ty(b)?);
        if matches!(*op, "%" | "&" | "^" | "|") {
          for t in [&a, &b] {
            if matches!(t, T::K(t) if is_float(t)) {
              return Err(Mixed);
            }
          }
          if let (T::K(a), T::K(b)) = (&a, &b) {
            if *op != "%" && a == "bool" && b == "bool" {
              return Ok(k("bool"));
            }
          }
        }
        self.arith(a, b)?
      },
      E::Asg(op, a, b) => {
        if !cexpr::is_lvalue(a) || self.is_value(a) {
          return Err(Mixed);
        }
        if self.root_is_param(a) {
          self.macro_("assignment to a parameter");
        }
        let (a, b) = (self.ty(a)?, self.ty(b)?);
        if *op != "=" {
          // Calculate with the values.
          for t in [&a, &b] {
            match t {
              T::K(t) if t == "bool" || !is_int(t) && !is_float(t) => return Err(Mixed),
              T::K(t) if matches!(*op, "%=" | "&=" | "^=" | "|=" | "<<=" | ">>=") && is_float(t) => return Err(Mixed),
              _ => {},
            }
          }
          if let (T::K(x), T::K(y), "<<=" | ">>=") = (&a, &b, *op) {
            if is_int(x) && is_int(y) {
              return Ok(a);
            }
          }
        }
        match (a, b) {
          (T::K(x), T::K(y)) if x == y => T::K(x),
          (T::K(x), T::K(y)) if is_int(&x) && y == "bool" => T::K(x),
          (T::K(x), T::Lit) if is_int(&x) || is_float(&x) => T::K(x),
          (T::K(_) | T::Lit, T::K(_) | T::Lit) => return Err(Mixed),
          (T::Unk, T::Unk | T::Lit) => T::Unk,
          _ => T::Either,
        }
      },
      E::Cond(c, a, b) => {
        match self.ty(c)? {
          T::K(t) if !is_int(&t) && !is_float(&t) && !t.starts_with('*') && t != "bool" => return Err(Mixed),
          _ => {},
        }
        match (self.ty(a)?, self.ty(b)?) {
          (T::K(x), T::K(y)) if x == y => T::K(x),
          (T::K(x), T::Lit) | (T::Lit, T::K(x)) if is_int(&x) || is_float(&x) => T::K(x),
          (T::Lit, T::Lit) => T::Either,
          (T::Unk, T::Unk | T::Lit) | (T::Lit, T::Unk) => T::Unk,
          (T::K(_) | T::Lit, T::K(_) | T::Lit) => return Err(Mixed),
          _ => T::Either,
        }
      },
      E::Cast(t, a) => {
        match self.ty(a)? {
          T::K(t) if t.starts_with('*') || !is_int(&t) && !is_float(&t) && t != "bool" => return Err(Mixed),
          _ => {},
        }
        T::K(self.name(t))
      },
      E::SizeOf(_) => k("c_size_t"),
      E::Index(a, i) => {
        match self.ty(i)? {
          T::K(t) if !is_int(&t) => return Err(Mixed),
          _ => {},
        }
        match self.ty(a)? {
          T::K(t) => match pointee(&t) {
            Some(p) => k(p),
            None => return Err(Mixed),
          },
          T::Lit | T::Either => return Err(Mixed),
          t => t,
        }
      },
      E::Dot(a, f) => match self.ty(a)? {
        T::K(t) => self.field(&t, f)?,
        T::Lit | T::Either => return Err(Mixed),
        t => t,
      },
      E::Arrow(a, f) => match self.ty(a)? {
        T::K(t) => match pointee(&t) {
          Some(p) => self.field(p, f)?,
          None => return Err(Mixed),
        },
        T::Lit | T::Either => return Err(Mixed),
        t => t,
      },
      E::Call(f, args) => {
        let known = self.cx.fns.iter().find(|x| x.0 == *f).cloned();
        let Some((_, p, ret)) = known else {
          self.macro_(f);
          for a in args {
            self.ty(a)?;
          }
          return Ok(T::Unk);
        };
        if p.len() != args.len() {
          // Not a call of this function.
          for a in args {
            self.ty(a)?;
          }
          self.loose = true;
          return Ok(T::Unk);
        }
        for (a, p) in args.iter().zip(&p) {
          if let E::Id(n) = a {
            if self.params.contains(&n.as_str()) {
              self.inferred.push((n.clone(), p.clone()));
            }
          }
          match self.ty(a)? {
            T::K(t) if t == *p => {},
            T::Lit if is_int(p) => {},
            T::Unk | T::Either => {},
            _ => return Err(Mixed),
          }
        }
        k(&ret)
      },
      #[allow(unreachable_patterns)]
      _ => return Err(Mixed),
    })
  }
}
impl<'a> CTypes<'a> {
  fn field(&self, t: &str, f: &str) -> Result<T, Mixed> {
    if is_int(t) || is_float(t) || t.starts_with('*') || t == "bool" || t.ends_with("c_void") {
      return Err(Mixed);
    }
    Ok(match self.cx.fields.iter().find(|(s, g, _)| s == t && g == f) {
      Some((_, _, t)) => k(t),
      None => T::Unk,
    })
  }
}

pub enum Want {
  Func { args: Vec<String>, ret: Option<String>, strict: bool },
  Macro(String),
  /// Either, but if it is a function, these are the parameters.
  /// The body need not have a type, as it is not valid C or would need conversions.
  Mixed { args: Option<Vec<String>> },
  Either { args: Option<Vec<String>> },
}

/// What to expect of a macro which consists of these expressions; the last is its value unless it is a statement.
fn want(cx: &Cx, params: &[&str], es: &[&E], stmt: bool) -> Want {
  let mut types: BTreeMap<String, String> = BTreeMap::new();
  for (m, a, t) in &cx.args {
    if m == "M" && params.contains(&a.as_str()) {
      types.insert(a.clone(), t.clone());
    }
  }
  let given = types.clone();
  loop {
    let mut c = CTypes { cx, params, types: types.clone(), needs_macro: None, inferred: vec![], loose: false };
    if cx.fns.iter().any(|f| f.0 == "M") {
      c.macro_("a function of this name");
    }
    if params.contains(&"...") {
      c.macro_("variadic");
    }
    let mut last = Ok(T::Unk);
    let mut mixed = false;
    for e in es {
      last = c.ty(e);
      mixed |= last.is_err();
    }
    let mut more = false;
    let mut conflict = false;
    let mut by: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (n, t) in &c.inferred {
      by.entry(n.clone()).or_default().insert(t.clone());
    }
    for (n, t) in by {
      conflict |= t.len() > 1;
      if !types.contains_key(&n) {
        types.insert(n, t.into_iter().next().unwrap());
        more = true;
      }
    }
    if conflict {
      return Want::Mixed { args: None };
    }
    if more {
      continue;
    }
    let unknown = params.iter().find(|p| **p != "..." && !types.contains_key(**p));
    if let (Some(why), false) = (&c.needs_macro, mixed) {
      return Want::Macro(why.clone());
    }
    if let Some(p) = unknown {
      // A mixed expression may end the search early.
      if mixed {
        return Want::Mixed { args: None };
      }
      return Want::Macro(format!("the type of {p} is unknown"));
    }
    if mixed {
      return Want::Mixed { args: if given.len() == params.len() { Some(params.iter().map(|p| given[*p].clone()).collect()) } else { None } };
    }
    let args: Vec<String> = params.iter().map(|p| types[*p].clone()).collect();
    if stmt {
      return Want::Func { args, ret: None, strict: !c.loose };
    }
    return match last {
      Ok(T::K(t)) if t == "c_void" => Want::Func { args, ret: None, strict: !c.loose },
      Ok(T::K(t)) => Want::Func { args, ret: Some(t), strict: !c.loose },
      Ok(T::Unk) => Want::Macro("the type of the result is unknown".into()),
      _ => Want::Either { args: Some(args) },
    };
  }
}

/// Positions of the parameters in generated code.
#[derive(Default)]
struct Uses {
  used: BTreeMap<String, BTreeSet<&'static str>>,
  odd: bool,
}
impl Uses {
  fn at(&mut self, id: &str, pos: &'static str) {
    if let Some(n) = id.strip_prefix("ARG_") {
      self.used.entry(n.into()).or_default().insert(pos);
    }
  }
  fn all(&mut self, ts: TokenStream, pos: &'static str) {
    for t in ts {
      match t {
        proc_macro2::TokenTree::Ident(i) => self.at(&i.to_string(), pos),
        proc_macro2::TokenTree::Group(g) => self.all(g.stream(), pos),
        _ => {},
      }
    }
  }
}
impl<'a> Visit<'a> for Uses {
  fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
    if let Some(i) = p.path.get_ident() {
      self.at(&i.to_string(), "value");
    }
    syn::visit::visit_expr_path(self, p);
  }
  fn visit_type_path(&mut self, p: &'a syn::TypePath) {
    if let Some(i) = p.path.get_ident() {
      self.at(&i.to_string(), "type");
    }
    syn::visit::visit_type_path(self, p);
  }
  fn visit_member(&mut self, m: &'a syn::Member) {
    if let syn::Member::Named(i) = m {
      self.at(&i.to_string(), "ident");
    }
  }
  fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
    self.at(&p.ident.to_string(), "ident");
  }
  fn visit_signature(&mut self, s: &'a syn::Signature) {
    self.at(&s.ident.to_string(), "ident");
    syn::visit::visit_signature(self, s);
  }
  fn visit_item_static(&mut self, s: &'a syn::ItemStatic) {
    self.at(&s.ident.to_string(), "ident");
    syn::visit::visit_item_static(self, s);
  }
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    use syn::parse::Parser;
    let exprs = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    match m.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
      Some("concat_idents") => self.all(m.tokens.clone(), "ident"),
      Some("stringify") => self.all(m.tokens.clone(), "any"),
      Some("line" | "file") => {},
      Some("concat") => {
        if let Ok(es) = exprs.parse2(m.tokens.clone()) {
          for e in &es {
            match e {
              syn::Expr::Path(_) => self.all(e.to_token_stream(), "concat"),
              e => self.visit_expr(e),
            }
          }
        } else {
          self.odd = true;
        }
      },
      Some("offset_of" | "offsetof") => {
        let mut it = m.tokens.clone().into_iter();
        let first: TokenStream = it.by_ref().take_while(|t| t.to_string() != ",").collect();
        self.all(first, "type");
        self.all(it.collect(), "ident");
      },
      Some("addr_of" | "addr_of_mut") => match syn::parse2::<syn::Expr>(m.tokens.clone()) {
        Ok(e) => self.visit_expr(&e),
        Err(_) => self.odd = true,
      },
      Some("asm") => self.all(m.tokens.clone(), "value"),
      _ => self.odd = true,
    }
  }
}

/// Check the fragments of a generated macro.
fn fragments(params: &[&str], frags: &[(String, String)], variadic: bool, body: TokenStream) -> Result<u64, String> {
  let text = body.to_string();
  if params.len() != frags.len() {
    return Err(format!("{} parameters for {params:?}: {frags:?}", frags.len()));
  }
  if variadic != params.contains(&"...") {
    return Err(format!("variadic or not: {frags:?}"));
  }
  let body = gen::substitute(body);
  let mut u = Uses::default();
  match gen::expr(body.clone()) {
    Ok(e) => u.visit_expr(&e),
    Err(_) => {
      for s in gen::stmts(body)? {
        u.visit_stmt(&s);
      }
    },
  }
  for (p, (n, kind)) in params.iter().zip(frags) {
    if *p == "..." {
      continue;
    }
    if n.trim_start_matches("r#") != *p {
      return Err(format!("the parameter {p} became {n}"));
    }
    if u.odd {
      continue;
    }
    let pos = u.used.get(*p).cloned().unwrap_or_default();
    let has = |s: &str| pos.contains(s);
    let ok: &[&str] = if has("type") && (has("value") || has("concat")) {
      continue;
    } else if has("ident") {
      &["ident", "tt"]
    } else if has("type") {
      &["ty"]
    } else if has("value") {
      &["expr"]
    } else if has("concat") {
      &["expr", "literal", "tt"]
    } else {
      &["expr", "ident", "tt", "ty", "literal"]
    };
    if !ok.contains(&kind.as_str()) {
      return Err(format!("`${p}` is used as {pos:?} but is declared as `{kind}` in ({frags:?}) => {text}"));
    }
  }
  for n in u.used.keys() {
    if !params.contains(&n.as_str()) {
      return Err(format!("${n} is not a parameter: {text}"));
    }
  }
  Ok(h(&format!("{frags:?}")))
}

#[derive(PartialEq, Clone, Copy)]
enum Check {
  Names,
  /// If the body has a type, it is the declared one.
  Result,
  /// The body has the declared type.
  Body,
}

/// Types and names of a generated function.
fn function(cx: &Cx, params: &[&str], sig: &syn::Signature, body: TokenStream, args: Option<&[String]>, check: Check) -> Result<(), String> {
  let text = format!("{} {{ {body} }}", show(sig));
  let mut vars = BTreeMap::new();
  let mut got = vec![];
  for a in &sig.inputs {
    let syn::FnArg::Typed(t) = a else { return Err(format!("parameter {}", show(a))) };
    let syn::Pat::Ident(i) = &*t.pat else { return Err(format!("parameter {}", show(a))) };
    let n = i.ident.to_string().trim_start_matches("r#").to_string();
    got.push((n.clone(), show(&t.ty)));
    vars.insert(n, show(&t.ty));
  }
  let names: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
  if names != params {
    return Err(format!("parameters {names:?} instead of {params:?}: {text}"));
  }
  if sig.abi.as_ref().map(|a| show(a)) != Some("extern\"C\"".into()) || sig.unsafety.is_none() {
    return Err(format!("not an unsafe extern \"C\" function: {text}"));
  }
  if let Some(w) = args {
    let g: Vec<&String> = got.iter().map(|g| &g.1).collect();
    if g.iter().zip(w).any(|(a, b)| *a != b) {
      return Err(format!("parameter types {g:?} instead of {w:?}: {text}"));
    }
  }
  let ret = match &sig.output {
    syn::ReturnType::Default => "()".to_string(),
    syn::ReturnType::Type(_, t) => show(t),
  };
  let stmts = gen::stmts(body)?;
  let mut r = RustTypes { vars, cx, unresolved: vec![] };
  let t = r.block(&stmts);
  if let Some(n) = r.unresolved.first() {
    return Err(format!("{n} is not known: {text}"));
  }
  match t {
    _ if check == Check::Names => Ok(()),
    Ok(t) => {
      if let Err(Bad::Ill(e)) = r.unify(t.clone(), RT::K(ret.clone()), "result") {
        return Err(format!("the declared result type {ret} is not the type of the body: {e}: {text}"));
      }
      Ok(())
    },
    Err(Bad::Ill(e)) if check == Check::Body => Err(format!("the body has no type: {e}: {text}")),
    Err(_) => Ok(()),
  }
}

/// `value`: The macro is an expression.
fn judge(cx: &Cx, params: &[&str], g: Result<Gen, String>, w: Want, value: bool) -> V {
  let g = match g {
    Ok(g) => g,
    Err(e) => return V::Fail(e),
  };
  if let (Gen::Func { sig, body }, true) = (&g, value) {
    if matches!(sig.output, syn::ReturnType::Default) && !cx.fns.iter().any(|f| f.2.ends_with("c_void")) {
      return V::Fail(format!("the function has no result, but the macro is an expression: {} {{ {body} }}", show(sig)));
    }
  }
  match (g, w) {
    (Gen::Err(_, e), _) if e.contains("constant expression without a value") => V::Skip("a literal shifted by a negative number"),
    (Gen::Err(..), Want::Mixed { .. }) => V::Skip("operands of different types or which do not suit the operator"),
    (Gen::Err(_, e), Want::Either { .. }) => V::Ok(h(&e)),
    (Gen::Err(stage, e), Want::Macro(_)) => V::Fail(format!("reported by {stage}: {e}")),
    (Gen::Err(stage, e), _) => V::Fail(format!("reported by {stage}: {e}")),
    (Gen::Macro { body, .. }, Want::Func { args, ret, .. }) => V::Fail(format!("expected a function ({args:?}) -> {ret:?}, got a macro: {body}")),
    (Gen::Func { sig, body }, Want::Macro(why)) => V::Fail(format!("expected a macro ({why}), got {} {{ {body} }}", show(&sig))),
    (Gen::Macro { frags, variadic, body }, Want::Macro(_) | Want::Either { .. } | Want::Mixed { .. }) => match fragments(params, &frags, variadic, body) {
      Ok(h) => V::Ok(h),
      Err(e) => V::Fail(e),
    },
    (Gen::Func { sig, body }, Want::Func { args, ret, strict }) => {
      let s = show(&sig);
      let got = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(show(t)),
      };
      if got != ret {
        return V::Fail(format!("expected the result type {ret:?}, got {s} {{ {body} }}"));
      }
      match function(cx, params, &sig, body, Some(&args), if strict { Check::Body } else { Check::Result }) {
        Ok(()) => V::Ok(h(&s)),
        Err(e) => V::Fail(e),
      }
    },
    (Gen::Func { sig, body }, Want::Either { args }) => match function(cx, params, &sig, body, args.as_deref(), Check::Result) {
      Ok(()) => V::Ok(h(&show(&sig))),
      Err(e) => V::Fail(e),
    },
    (Gen::Func { sig, body }, Want::Mixed { args }) => match function(cx, params, &sig, body, args.as_deref(), Check::Names) {
      Ok(()) if args.is_none() => V::Skip("operands of different types or which do not suit the operator"),
      Ok(()) => V::Ok(h(&show(&sig))),
      Err(e) => V::Fail(e),
    },
    _ => V::Fail("neither function nor macro".into()),
  }
}

// --- spaces --------------------------------------------------------------------------------------

/// Every expression with exactly `n` operators.
fn expr(ch: &mut Ch, n: usize, leaves: &[&'static str]) -> E {
  let b = Box::new;
  if n == 0 {
    let l = leaves[ch.pick(leaves.len())];
    return if l == "1" { E::Num("1".into(), 1) } else { E::Id(l.into()) };
  }
  match ch.pick(18) {
    0 => E::Un("-", b(expr(ch, n - 1, leaves))),
    1 => E::Un("!", b(expr(ch, n - 1, leaves))),
    2 => E::Un("~", b(expr(ch, n - 1, leaves))),
    3 => E::Un("*", b(expr(ch, n - 1, leaves))),
    4 => E::Un("&", b(expr(ch, n - 1, leaves))),
    5 => E::Cast(TY, b(expr(ch, n - 1, leaves))),
    6 => E::Cast(INT, b(expr(ch, n - 1, leaves))),
    7 => E::Cast(cexpr::BOOL, b(expr(ch, n - 1, leaves))),
    8 => E::Dot(b(expr(ch, n - 1, leaves)), "fld".into()),
    9 => E::Arrow(b(expr(ch, n - 1, leaves)), "fld".into()),
    10 => E::Call("f".into(), vec![expr(ch, n - 1, leaves)]),
    i @ 11..=16 => {
      let l = ch.pick(n);
      let a = expr(ch, l, leaves);
      let c = expr(ch, n - 1 - l, leaves);
      match i {
        11 => E::Bin("+", b(a), b(c)),
        12 => E::Bin("<", b(a), b(c)),
        13 => E::Bin("<<", b(a), b(c)),
        14 => E::Asg("=", b(a), b(c)),
        15 => E::Index(b(a), b(c)),
        _ => E::Call("g".into(), vec![a, c]),
      }
    },
    _ => {
      let i = ch.pick(n);
      let j = ch.pick(n - i);
      let c = expr(ch, i, leaves);
      let a = expr(ch, j, leaves);
      let d = expr(ch, n - 1 - i - j, leaves);
      E::Cond(b(c), b(a), b(d))
    },
  }
}
fn mentions(toks: &[String], n: &str) -> bool {
  toks.iter().any(|t| t == n)
}
const XT: &[Option<&str>] = &[None, Some("c_int"), Some("S"), Some("*mut S"), Some("*mut c_int"), Some("f64"), Some("bool"), Some("c_uchar")];
const YT: &[Option<&str>] = &[None, Some("c_int"), Some("*mut c_int"), Some("S")];

/// What is known about everything the macro mentions.
fn env(ch: &mut Ch, toks: &[String], params: &[&str], few: bool) -> Cx {
  let mut cx = Cx::default();
  for p in params {
    let ts = if *p == "x" { XT } else { YT };
    let ts = if few { &ts[..ts.len().min(5)] } else { ts };
    let t = if mentions(toks, p) { ts[ch.pick(ts.len())] } else { ts[ch.pick(2)] };
    if let Some(t) = t {
      cx.args.push(("M".into(), p.to_string(), t.into()));
    }
  }
  cx.types.push(("S".into(), "S".into()));
  cx.types.push(("T".into(), "T".into()));
  if mentions(toks, "E1") {
    match ch.pick(3) {
      0 => {},
      1 => cx.enums.push(("E1".into(), "c_int".into(), "E_ONE".into())),
      _ => cx.enums.push(("E1".into(), "En".into(), "En::E1".into())),
    }
  }
  if mentions(toks, "f") {
    match ch.pick(if few { 3 } else { 6 }) {
      0 => {},
      4 => cx.fns.push(("f".into(), vec![], "c_int".into())),
      5 => cx.fns.push(("f".into(), vec!["c_int".into(), "c_int".into()], "c_int".into())),
      1 => cx.fns.push(("f".into(), vec!["c_int".into()], "c_int".into())),
      2 => cx.fns.push(("f".into(), vec!["*mut S".into()], "S".into())),
      _ => cx.fns.push(("f".into(), vec!["c_int".into()], "c_void".into())),
    }
  }
  if mentions(toks, "g") {
    match ch.pick(2) {
      0 => {},
      _ => cx.fns.push(("g".into(), vec!["*mut S".into(), "c_int".into()], "*mut c_int".into())),
    }
  }
  if mentions(toks, "fld") {
    match ch.pick(3) {
      0 => {},
      1 => cx.fields.push(("S".into(), "fld".into(), "c_int".into())),
      _ => cx.fields.push(("S".into(), "fld".into(), "*mut S".into())),
    }
  }
  // Answers to other questions.
  cx.args.push(("N".into(), "x".into(), "c_long".into()));
  cx.args.push(("M".into(), "v".into(), "c_long".into()));
  cx.fields.push(("S".into(), "other".into(), "c_long".into()));
  cx.fields.push(("R".into(), "fld".into(), "c_long".into()));
  cx
}

fn run(ch: &mut Ch, cx: &Cx, params: &[&str], toks: &[String]) -> Result<Gen, String> {
  ch.note(format!("#define M({}) {}   [{}]", params.join(", "), toks.join(" "), know(cx)));
  let t: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
  gen::func(cx, "M", params, &t)
}
fn know(cx: &Cx) -> String {
  let mut o = vec![];
  for (m, a, t) in &cx.args {
    if m == "M" && a != "v" {
      o.push(format!("{a}: {t}"));
    }
  }
  for (n, t, e) in &cx.enums {
    o.push(format!("{n} = {e}: {t}"));
  }
  for (n, a, r) in &cx.fns {
    o.push(format!("{n}({}) -> {r}", a.join(", ")));
  }
  for (s, f, t) in &cx.fields {
    if s == "S" && f != "other" {
      o.push(format!("{s}.{f}: {t}"));
    }
  }
  o.join("; ")
}

fn c15_exprs(ch: &mut Ch, n: usize, few: bool) -> V {
  {
    let n = if few { n } else { ch.pick(n + 1) };
    let leaves: &[&'static str] = match n {
      _ if few => &["x", "1"],
      0 | 1 => &["x", "y", "1", "E1", "v", "__LINE__", "__FILE__"],
      _ => &["x", "y", "1", "E1", "v"],
    };
    let e = expr(ch, n, leaves);
    let toks = cexpr::print(&e, MIN);
    let params: &[&str] = if mentions(&toks, "y") { &["x", "y"] } else { &["x"] };
    let cx = env(ch, &toks, params, few);
    let g = run(ch, &cx, params, &toks);
    judge(&cx, params, g, want(&cx, params, &[&e], false), true)
  }
}

/// Every operator.
fn c15_operators(ch: &mut Ch) -> V {
  let b = Box::new;
  let thorough = ch.tier == Tier::Thorough;
  let side = |ch: &mut Ch| {
    let id = |s: &str| Box::new(E::Id(s.into()));
    match ch.pick(if thorough { 9 } else { 8 }) {
      0 => E::Id("x".into()),
      1 => E::Id("y".into()),
      2 => E::Num("1".into(), 1),
      3 => E::Un("*", id("x")),
      4 => E::Un("*", id("y")),
      5 => E::Dot(id("x"), "fld".into()),
      6 => E::Arrow(id("x"), "fld".into()),
      7 => E::Id("E1".into()),
      _ => E::Id("v".into()),
    }
  };
  let bin = ["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|"];
  let asg = ["=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="];
  let i = ch.pick(16 + 11 + 4);
  let e = match i {
    0..=15 => E::Bin(bin[i], b(side(ch)), b(side(ch))),
    16..=26 => E::Asg(asg[i - 16], b(side(ch)), b(side(ch))),
    27 => E::Un("++", b(side(ch))),
    28 => E::Un("--", b(side(ch))),
    29 => E::Post("++", b(side(ch))),
    _ => E::Post("--", b(side(ch))),
  };
  let e = match ch.pick(if thorough { 6 } else { 4 }) {
    0 => e,
    1 => E::Call("f".into(), vec![e]),
    2 => E::Un("!", b(e)),
    3 => E::Bin("+", b(e), b(E::Num("1".into(), 1))),
    4 => E::Cond(b(E::Id("y".into())), b(e), b(E::Num("1".into(), 1))),
    _ => E::Asg("=", b(E::Un("*", b(E::Id("y".into())))), b(e)),
  };
  let mut toks = cexpr::print(&e, MIN);
  let params: &[&str] = if mentions(&toks, "y") { &["x", "y"] } else { &["x"] };
  let stmt = ch.flag();
  if stmt {
    toks.push(";".into());
  }
  let cx = env(ch, &toks, params, !thorough);
  let g = run(ch, &cx, params, &toks);
  judge(&cx, params, g, want(&cx, params, &[&e], stmt), !stmt)
}

fn c15_stmts(ch: &mut Ch) -> V {
  let leaves: &[&'static str] = ch.tier.q(&["x", "y", "E1"], &["x", "y", "E1", "v"]);
  let shape = ch.pick(6);
  let deep = ch.tier == Tier::Thorough;
  let n = if deep { 2 } else { 1 };
  let es: Vec<E> = match shape {
    0 | 1 => (0..1).map(|_| { let n = ch.pick(n + 1); expr(ch, n, leaves) }).collect(),
    _ => {
      let a = expr(ch, 1, leaves);
      let j = ch.pick(if deep { 2 } else { 1 });
      let b = expr(ch, j, leaves);
      if ch.flag() {
        vec![a, b]
      } else {
        vec![b, a]
      }
    },
  };
  let t: Vec<Vec<String>> = es.iter().map(|e| cexpr::print(e, MIN)).collect();
  let mut toks: Vec<String> = vec![];
  let mut put = |s: &str| {
    for w in s.split(' ') {
      match w {
        "A" => toks.extend(t[0].iter().cloned()),
        "B" => toks.extend(t[1].iter().cloned()),
        w => toks.push(w.into()),
      }
    }
  };
  put(["A ;", "{ A ; }", "{ A ; B ; }", "if ( A ) B ;", "do { A ; } while ( B )", "if ( A ) { B ; } else { A ; }"][shape]);
  let params: &[&str] = if mentions(&toks, "y") { &["x", "y"] } else { &["x"] };
  let cx = env(ch, &toks, params, !deep);
  let g = run(ch, &cx, params, &toks);
  // A condition is compared with zero.
  let es: Vec<E> = es.into_iter().enumerate().map(|(i, e)| if i == 0 && matches!(shape, 3 | 5) || i == 1 && shape == 4 { E::Un("!", Box::new(e)) } else { e }).collect();
  let refs: Vec<&E> = es.iter().collect();
  judge(&cx, params, g, want(&cx, params, &refs, true), false)
}

fn c15_shape(ch: &mut Ch) -> V {
  // Parameters, whether known or not and whether used or not; a function of this name.
  let params: &[&str] = [&[] as &[&str], &["x"], &["x", "y"], &["y", "x"], &["x", "..."], &["..."], &["x", "y", "type"], &["b", "a"]][ch.pick(8)];
  let plain: Vec<&'static str> = params.iter().filter(|p| **p != "...").map(|p| match *p { "x" => "x", "y" => "y", "type" => "type", "a" => "a", _ => "b" }).collect();
  let mut leaves = plain.clone();
  leaves.push("1");
  leaves.push("E1");
  let n = ch.pick(2);
  let mut e = expr(ch, n, &leaves);
  if params.contains(&"...") && ch.flag() {
    e = E::Call("f".into(), vec![e, E::Id("__VA_ARGS__".into())]);
  }
  let mut toks = cexpr::print(&e, MIN);
  let stmt = ch.flag();
  if stmt {
    toks.push(";".into());
  }
  let mut cx = Cx::default();
  for p in &plain {
    if ch.flag() {
      cx.args.push(("M".into(), p.to_string(), "c_int".into()));
    }
  }
  if mentions(&toks, "E1") && ch.flag() {
    cx.enums.push(("E1".into(), "c_int".into(), "E_ONE".into()));
  }
  if mentions(&toks, "f") && ch.flag() {
    cx.fns.push(("f".into(), vec!["c_int".into()], "c_int".into()));
  }
  if mentions(&toks, "g") && ch.flag() {
    cx.fns.push(("g".into(), vec!["c_int".into(), "c_int".into()], "c_int".into()));
  }
  cx.types.push(("T".into(), "T".into()));
  match ch.pick(3) {
    0 => {},
    1 => cx.fns.push(("M".into(), vec!["c_int".into()], "c_int".into())),
    _ => cx.fns.push(("N".into(), vec![], "c_int".into())),
  }
  let g = run(ch, &cx, params, &toks);
  let mut w = want(&cx, params, &[&e], stmt);
  if let Want::Either { .. } | Want::Mixed { .. } = w {
    if params.contains(&"...") || cx.fns.iter().any(|f| f.0 == "M") {
      if let Ok(Gen::Func { .. }) = g {
        w = Want::Macro("variadic or its own name".into());
      }
    }
  }
  judge(&cx, params, g, w, !stmt)
}

/// Uses of the parameters.
const USES: &[&str] = &[
  "x", "x + 1", "f ( x )", "( T ) x", "sizeof ( x )", "( x ) 1", "( x * ) y", "sizeof ( x * )", "x v = 1", "x * v = y", "static x v = 1", "int x = 1", "int x = y", "static int x = 1", "y . x", "y -> x", "& y -> x", "y . x = 1", "# x", "\"s\" # x",
  "x ## _a", "a_ ## x", "x ## y", "a_ ## x ( y )", "y . x ## _a", "__builtin_offsetof ( x , y )", "__builtin_offsetof ( T , x )", "x ( y )", "x = 1", "& x", "* x", "x ++", "x [ y ]", "\"s\" x", "x \"s\"", "int x ( int a )", "x f ( int a )", "int f ( int x )", "int f ( x a )",
  "__asm__ ( \"nop\" : : \"r\" ( x ) )", "__asm__ ( \"nop\" : \"=r\" ( x ) )", "( volatile x * ) y", "* ( volatile int * ) x", "x ? y : 1", "y . z . x", "x . y", "y ? x : 1",
];

fn c15_uses(ch: &mut Ch) -> V {
  let n = ch.pick(3);
  let mut toks: Vec<String> = vec![];
  let mut add = |u: &str| toks.extend(u.split(' ').map(String::from));
  if n == 0 {
    add(USES[ch.pick(USES.len())]);
    if ch.flag() {
      add(";");
    }
  } else {
    add("{");
    for _ in 0..n {
      add(USES[ch.pick(USES.len())]);
      add(";");
    }
    add("}");
  }
  let params: &[&str] = [&["x", "y"] as &[&str], &["y", "x"], &["x", "y", "z"], &["x", "y", "..."]][ch.pick(if n == 2 && ch.tier == Tier::Quick { 1 } else { 4 })];
  let mut cx = Cx::default();
  if ch.flag() {
    cx.args.push(("M".into(), "x".into(), "c_int".into()));
    cx.args.push(("M".into(), "y".into(), "*mut c_int".into()));
  }
  cx.types.push(("T".into(), "T".into()));
  if ch.flag() {
    cx.fns.push(("f".into(), vec!["c_int".into()], "c_int".into()));
  }
  let g = run(ch, &cx, params, &toks);
  match g {
    Err(e) => V::Fail(e),
    Ok(Gen::Err(_, e)) if e.contains("UnsupportedExpression") || e.contains("InvalidMacroBody") => V::Skip("not supported"),
    Ok(Gen::Err(s, e)) => V::Fail(format!("{s}: {e}")),
    Ok(Gen::Macro { frags, variadic, body }) => match fragments(params, &frags, variadic, body) {
      Ok(h) => V::Ok(h),
      Err(e) => V::Fail(e),
    },
    Ok(Gen::Func { sig, body }) => match function(&cx, params, &sig, body, None, Check::Names) {
      Ok(()) => V::Ok(h(&show(&sig))),
      Err(e) => V::Fail(e),
    },
    _ => V::Fail("neither function nor macro".into()),
  }
}

pub fn c15(t: Tier) -> Vec<Space> {
  let mut v = vec![
    Space { name: "exprs", bounds: "every expression of up to two operators (- ! ~ * & casts to T, int and bool, member through . and ->, calls of one and two arguments, + < << = index ?:) over x, y, 1, an enum variant, an unknown name (and __LINE__, __FILE__ with up to one operator); every combination of known and unknown parameter types (int, unsigned char, bool, double, a struct, pointers), enum variant, functions and member".into(), f: |ch| c15_exprs(ch, 2, false) },
    Space { name: "operators", bounds: "each of the 16 binary, 11 assignment and 4 increment operators on parameters, what they point to, their member, a literal and an enum variant, alone, as argument, negated or added to, as value and as statement, same contexts".into(), f: c15_operators },
    Space { name: "stmts", bounds: "statements, blocks, if and do-while of one or two expressions of up to one operator, same contexts".into(), f: c15_stmts },
    Space { name: "shape", bounds: "none to three parameters, variadic, keywords, all known or unknown, used or not; a function of the macro's name".into(), f: c15_shape },
    Space { name: "uses", bounds: "one or two of 47 uses of two parameters (value, type, member name, declared name, pasted, stringified, offsetof, asm operand) in any order".into(), f: c15_uses },
  ];
  if t == Tier::Thorough {
    v.push(Space { name: "deep", bounds: "every expression of three operators over x and 1".into(), f: |ch| c15_exprs(ch, 3, true) });
  }
  v
}

// --- C24 -----------------------------------------------------------------------------------------

/// Replace `PLACE`.
fn replace(ts: TokenStream, with: &TokenStream) -> TokenStream {
  use proc_macro2::TokenTree as TT;
  ts.into_iter()
    .flat_map(|t| match t {
      TT::Ident(i) if i == "PLACE" => with.clone(),
      TT::Group(g) => TokenStream::from(TT::Group(proc_macro2::Group::new(g.delimiter(), replace(g.stream(), with)))),
      t => TokenStream::from(t),
    })
    .collect()
}
struct Strip;
impl VisitMut for Strip {
  fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
    loop {
      let inner = match e {
        syn::Expr::Paren(p) => (*p.expr).clone(),
        syn::Expr::Group(p) => (*p.expr).clone(),
        _ => break,
      };
      *e = inner;
    }
    syn::visit_mut::visit_expr_mut(self, e);
  }
  fn visit_type_mut(&mut self, t: &mut syn::Type) {
    loop {
      let inner = match t {
        syn::Type::Paren(p) => (*p.elem).clone(),
        syn::Type::Group(p) => (*p.elem).clone(),
        _ => break,
      };
      *t = inner;
    }
    syn::visit_mut::visit_type_mut(self, t);
  }
}
/// The structure of code, without regard to redundant parentheses.
fn structure(ts: TokenStream) -> Result<String, String> {
  let ts = gen::substitute(ts);
  match gen::expr(ts.clone()) {
    Ok(mut e) => {
      Strip.visit_expr_mut(&mut e);
      Ok(format!("{e:?}"))
    },
    Err(_) => {
      let mut s = gen::stmts(ts)?;
      for s in &mut s {
        Strip.visit_stmt_mut(s);
      }
      // A lone expression is the same as a block of it.
      if let [syn::Stmt::Expr(e, None)] = &s[..] {
        return Ok(format!("{e:?}"));
      }
      Ok(format!("{s:?}"))
    },
  }
}
#[derive(PartialEq)]
struct Out {
  kind: String,
  body: String,
}
/// The generated code, with `PLACE` replaced, in a form to compare.
fn out(g: Result<Gen, String>, place: &str) -> Result<Out, String> {
  let with = TokenStream::from_str(place).unwrap();
  let sub = |t: TokenStream| replace(t, &with);
  // Types are never parenthesised.
  Ok(match g? {
    Gen::Err(s, e) => Out { kind: format!("{s}: {}", replace(TokenStream::from_str(&e).unwrap_or_default(), &with)), body: String::new() },
    Gen::Var { expr, ty } => Out { kind: ty.map_or("no type".into(), |t| sub(t).to_string()), body: structure(sub(expr))? },
    Gen::Func { sig, body } => Out { kind: sub(sig.to_token_stream()).to_string(), body: structure(sub(body))? },
    Gen::Macro { frags, body, .. } => Out { kind: format!("{frags:?}"), body: structure(sub(body))? },
  })
}

fn generate(func: bool, cx: &Cx, toks: &[String]) -> Result<Gen, String> {
  let t: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
  if func {
    gen::func(cx, "M", &["x"], &t)
  } else {
    Ok(gen::var(cx, "M", &t))
  }
}

const VARIANTS: &[(&str, &str)] = &[
  ("c_int", "E_ONE"), ("En", "En::E1"), ("c_int", "a + b"), ("c_uint", "A as c_uint"), ("c_int", "- 1"), ("c_int", "m::f(1)"), ("c_int", "! A"), ("c_int", "{ A }"), ("c_int", "unsafe { A }"), ("c_int", "a . b"), ("c_int", "x"), ("c_int", "3"), ("c_int", "if a { b } else { c }"),
  ("c_int", "a << 1"), ("c_int", "& A"), ("c_int", "* A"), ("c_int", "(a + b)"), ("c_int", "a == b"), ("bool", "true"), ("c_int", "v ! (1)"), ("f64", "1.5"), ("c_int", "| a | a"),
];

/// An enum variant is what the context says it is.
fn c24_variant(ch: &mut Ch, n: usize) -> V {
  {
    let func = ch.flag();
    let n = ch.pick(n + 1);
    let leaves: &[&'static str] = if func { &["E1", "x", "1"] } else { &["E1", "1"] };
    let e = expr(ch, n, leaves);
    let mut toks = cexpr::print(&e, MIN);
    if !mentions(&toks, "E1") {
      return V::Skip("the variant is not mentioned");
    }
    if toks.iter().any(|t| t == "&" || t == "=") {
      return V::Skip("the address of or an assignment to a variant");
    }
    if func && ch.flag() {
      toks.push(";".into());
    }
    let v = VARIANTS[ch.pick(VARIANTS.len())];
    let mut cx = Cx::default();
    cx.types.push(("T".into(), "T".into()));
    if func && ch.flag() {
      cx.args.push(("M".into(), "x".into(), "c_int".into()));
    }
    if mentions(&toks, "f") && ch.flag() {
      cx.fns.push(("f".into(), vec!["c_int".into()], "c_int".into()));
    }
    cx.enums.push(("E2".into(), "c_long".into(), "OTHER".into()));
    let mut a = cx.clone();
    a.enums.push(("E1".into(), v.0.into(), "PLACE".into()));
    let mut b = cx;
    b.enums.push(("E1".into(), v.0.into(), v.1.into()));
    ch.note(format!("#define M{} {}   [{}]", if func { "(x)" } else { "" }, toks.join(" "), know(&b)));
    let place = format!("({})", v.1);
    if let Ok(Gen::Err(_, e)) = generate(func, &a, &toks) {
      return match generate(func, &b, &toks) {
        Ok(Gen::Err(_, f)) if e == f => V::Skip("not supported"),
        g => V::Fail(format!("{e} with one name of the variant, {g:?} with another")),
      };
    }
    match (out(generate(func, &a, &toks), &place), out(generate(func, &b, &toks), "PLACE")) {
      (Ok(p), Ok(q)) if p == q => V::Ok(h(&p.body)),
      (Err(_), _) => V::Skip("the address of or an assignment to a variant"),
      (p, q) => {
        let s = |o: Result<Out, String>| match o {
          Ok(o) => o.kind,
          Err(e) => e,
        };
        V::Fail(format!("not the code for a variant with the variant's expression in its place: {:?} instead of {:?} ({} / {})", generate(func, &b, &toks), generate(func, &a, &toks), s(p), s(q)))
      },
    }
  }
}

/// What a type resolves to and how to spell that in C, if there is a way.
const TYPES: &[(&str, Option<&str>)] = &[
  ("c_int", Some("int")), ("c_uchar", Some("unsigned char")), ("bool", Some("bool")), ("f64", Some("double")), ("f32", Some("float")), ("* mut c_int", Some("int *")), ("* const c_char", Some("char * const")), ("* mut * mut c_char", Some("char * *")), ("c_ulong", Some("unsigned long")), ("c_void", Some("void")),
  ("m::U", None), ("U", None), ("::a::b::U", None), ("* mut m::U", None), ("crate::U", None),
];
const TYPE_USES: &[&str] = &[
  "( T ) @", "( T ) ( @ )", "( T ) - @", "( T ) ( - @ )", "( T ) @ + 1", "1 + ( T ) @", "sizeof ( T )", "sizeof ( T ) + @", "( T * ) @", "( T const * ) @", "( T * const ) @", "sizeof ( T * )", "! ( T ) @", "- ( T ) @", "~ ( T ) @", "( T ) @ == 1", "( T ) @ << 1", "( T ) @ ? 1 : 2", "1 ? ( T ) @ : ( T ) 2", "( T ) ( T ) @", "( int ) ( T ) @",
  "( T ) @ + ( T ) @", "( T ) 1.5 + @", "( T ) 1.5f * 2.0", "( T const ) @", "( T volatile ) @", "( T ) @ < ( int ) 3", "( T ) 'a'", "( T ) \"ab\"", "( T ) 0", "( T ) sizeof ( T )",
  // Functions only from here.
  "* ( T * ) @", "* ( T volatile * ) @", "* ( T ) @", "( T ) x", "{ T v = @ ; }", "{ static T v = @ ; }", "{ T * v = @ ; f ( v ) ; }", "T fn0 ( T a ) ;", "T * fn0 ( T * a , int b ) ;", "f ( ( T ) @ )", "( T ) f ( @ )", "( ( T * ) x ) -> fld", "( ( T ) x ) . fld", "* ( T * ) x = @", "__builtin_offsetof ( T , fld )", "if ( ( T ) @ ) f ( @ ) ;",
];
const FN_USES: usize = 31;

fn c24_types(ch: &mut Ch) -> V {
  let func = ch.flag();
  let u = TYPE_USES[ch.pick(if func { TYPE_USES.len() } else { FN_USES })];
  let leaves: &[&str] = if func { &["1", "x", "E1", "1.5", "300", "-1", "f ( x )"] } else { &["1", "E1", "1.5", "300", "0"] };
  let l = if u.contains('@') { leaves[ch.pick(leaves.len())] } else { "" };
  let toks = |t: &str| -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for w in u.split(' ') {
      match w {
        "@" => o.extend(l.split(' ').map(String::from)),
        "T" => o.extend(t.split(' ').map(String::from)),
        w => o.push(w.into()),
      }
    }
    o
  };
  let (rust, spelled) = TYPES[ch.pick(TYPES.len())];
  if u.contains("offsetof") && spelled.is_some() {
    return V::Skip("the first argument of offsetof is a name");
  }
  if rust.starts_with("* const") && (u.contains("T const") || u.contains("T volatile")) {
    return V::Skip("a qualified pointer which is qualified again");
  }
  let mut cx = Cx::default();
  cx.types.push(("U".into(), "c_long".into()));
  cx.types.push(("E_".into(), "c_long".into()));
  if ch.flag() {
    cx.enums.push(("E1".into(), "c_int".into(), "E_ONE".into()));
  }
  if func {
    match ch.pick(3) {
      0 => {},
      1 => cx.args.push(("M".into(), "x".into(), "c_int".into())),
      _ => cx.args.push(("M".into(), "x".into(), "*mut c_char".into())),
    }
    if ch.flag() {
      cx.fns.push(("f".into(), vec!["c_int".into()], "c_int".into()));
    }
  }
  let t = toks("T");
  let mut b = cx.clone();
  b.types.push(("T".into(), rust.into()));
  ch.note(format!("#define M{} {}   [T = {rust}; {}]", if func { "(x)" } else { "" }, t.join(" "), know(&b)));
  let got = out(generate(func, &b, &t), "PLACE");
  let (want, how) = match spelled {
    Some(s) => (out(generate(func, &cx, &toks(s)), "PLACE"), format!("as spelled {s}")),
    None => {
      let mut a = cx.clone();
      a.types.push(("T".into(), rust.replace("m::U", "PLACE").replace("::a::b::U", "PLACE").replace("crate::U", "PLACE").replace("U", "PLACE")));
      (out(generate(func, &a, &t), rust.trim_start_matches("* mut ")), "with another name".into())
    },
  };
  match (&want, &got) {
    (Ok(p), Ok(q)) if p == q => V::Ok(h(&p.body) ^ h(&p.kind)),
    (Ok(p), Ok(q)) if p.body.is_empty() && q.body.is_empty() && spelled.is_some() => V::Skip("not supported"),
    (p, q) => {
      let s = |o: &Result<Out, String>| match o {
        Ok(o) => o.kind.clone(),
        Err(e) => e.clone(),
      };
      let _ = (p, q);
      V::Fail(format!("{:?} is not what it is {how}: {} / {}", generate(func, &b, &t), s(&want), s(&got)))
    },
  }
}

/// Which names are known decides what is reported.
fn c24_names(ch: &mut Ch, n: usize) -> V {
  {
    let func = ch.flag();
    let n = ch.pick(n + 1);
    let leaves: &[&'static str] = if func { &["E1", "E2", "x", "1"] } else { &["E1", "E2", "__LINE__", "1"] };
    let mut e = expr(ch, n, leaves);
    if n < 2 {
      e = match ch.pick(4) {
        0 => e,
        1 => E::Bin("+", Box::new(e), Box::new(E::SizeOf(TY))),
        2 => E::Cast(cexpr::TP, Box::new(e)),
        _ => E::Cast(cexpr::SP, Box::new(e)),
      };
    }
    let mut toks = cexpr::print(&e, MIN);
    if func && ch.flag() {
      toks.push(";".into());
    }
    let mut cx = Cx::default();
    cx.args.push(("M".into(), "x".into(), "c_int".into()));
    cx.types.push(("E1".into(), "c_int".into()));
    // A name in brackets before an operator which is unary and binary is a type, or a variant, as the context says.
    let ambiguous = toks.windows(4).any(|w| w[0] == "(" && (w[1] == "T" || w[1] == "S") && w[2] == ")" && matches!(w[3].as_str(), "+" | "-" | "*" | "&" | "("));
    if !ambiguous {
      cx.enums.push(("T".into(), "c_int".into(), "T".into()));
    }
    cx.fns.push(("E2".into(), vec![], "c_int".into()));
    let mut unknown = vec![];
    let mut bad_type = None;
    for v in ["E1", "E2", "__LINE__"] {
      if mentions(&toks, v) {
        if v != "__LINE__" && ch.flag() {
          cx.enums.push((v.into(), "c_int".into(), format!("{v}_")));
        } else {
          unknown.push(v);
        }
      }
    }
    for t in ["T", "S"] {
      if mentions(&toks, t) {
        if ch.flag() {
          cx.types.push((t.into(), t.into()));
        } else {
          bad_type = Some(t);
        }
      }
    }
    for f in ["f", "g"] {
      if mentions(&toks, f) && func {
        if ch.flag() {
          cx.fns.push((f.into(), if f == "f" { vec!["c_int".into()] } else { vec!["c_int".into(), "c_int".into()] }, "c_int".into()));
        } else {
          unknown.push(f);
        }
      }
    }
    ch.note(format!("#define M{} {}   [{}; types {:?}]", if func { "(x)" } else { "" }, toks.join(" "), know(&cx), cx.types.iter().map(|t| &t.0).collect::<Vec<_>>()));
    let odd = {
      let mut c = CTypes { cx: &cx, params: &["x"], types: BTreeMap::from([("x".to_string(), "c_int".to_string())]), needs_macro: None, inferred: vec![], loose: false };
      c.ty(&e).is_err()
    };
    let constant = !toks.iter().any(|t| matches!(t.as_str(), "f" | "g" | "[" | "=" | "." | "->")) && !has_place_op(&e);
    match generate(func, &cx, &toks) {
      Err(e) => V::Fail(e),
      Ok(Gen::Err(_, e)) if e.contains("without a value") => V::Skip("a constant without a value"),
      Ok(_) if ambiguous && bad_type.is_some() => V::Skip("an unknown name in brackets before an operator"),
      Ok(Gen::Err(_, e)) => match bad_type {
        Some(_) if odd || !func && !constant => V::Ok(1),
        Some(t) if e == format!("UnsupportedType({t:?})") => V::Ok(2),
        Some(t) => V::Fail(format!("expected an error about the type {t}, got {e}")),
        None if odd => V::Skip("operands of different types or which do not suit the operator"),
        None if !func && !constant => V::Ok(3),
        None if !func && !unknown.is_empty() && e == "NonConstantVarMacro" => V::Ok(4),
        None => V::Fail(format!("{e} although {}", if unknown.is_empty() { "everything is known".into() } else { format!("only {unknown:?} are unknown") })),
      },
      Ok(g) => {
        if let Some(t) = bad_type {
          return V::Fail(format!("the type {t} is unknown, got {g:?}"));
        }
        match (&g, unknown.is_empty()) {
          (Gen::Var { .. } | Gen::Func { .. }, false) => V::Fail(format!("{unknown:?} unknown, got {g:?}")),
          _ => V::Ok(h(&format!("{unknown:?}")) ^ match g {
            Gen::Var { .. } => 1,
            Gen::Func { .. } => 2,
            _ => 3,
          }),
        }
      },
    }
  }
}
/// Calls of a function whose signature the context answers.
fn c24_signatures(ch: &mut Ch) -> V {
  const TS: &[&str] = &["c_int", "*mut S", "m::U", "f64", "bool", "*const*mut c_char", "c_void"];
  let n = ch.pick(4);
  let quick = ch.tier == Tier::Quick;
  let ts = &TS[..if n == 3 { if quick { 2 } else { 4 } } else if n == 2 && quick { 4 } else { 6 }];
  let params: Vec<String> = (0..n).map(|_| ts[ch.pick(ts.len())].to_string()).collect();
  let ret = TS[ch.pick(TS.len())];
  let arg = |ch: &mut Ch| {
    let id = |s: &str| Box::new(E::Id(s.into()));
    match ch.pick(6) {
      0 => E::Id("x".into()),
      1 => E::Id("y".into()),
      2 => E::Num("1".into(), 1),
      3 => E::Bin("+", id("x"), Box::new(E::Num("1".into(), 1))),
      4 => E::Un("*", id("x")),
      _ => E::Call("h".into(), vec![E::Id("x".into())]),
    }
  };
  let m = ch.pick(if quick && n != 3 { 3 } else { 4 });
  let mut e = E::Call("f".into(), (0..m).map(|i| if i == 2 { E::Id(["x", "y"][ch.pick(2)].into()) } else { arg(ch) }).collect());
  e = match ch.pick(4) {
    0 => e,
    1 => E::Un("!", Box::new(e)),
    2 => E::Asg("=", Box::new(E::Id("v".into())), Box::new(e)),
    _ => E::Cast(cexpr::CT { ..INT }, Box::new(e)),
  };
  let toks = cexpr::print(&e, MIN);
  let ps: &[&str] = if mentions(&toks, "y") { &["x", "y"] } else { &["x"] };
  let mut cx = Cx::default();
  cx.types.push(("S".into(), "S".into()));
  match ch.pick(4) {
    0 => {},
    1 => cx.args.push(("M".into(), "x".into(), "c_int".into())),
    2 => cx.args.push(("M".into(), "x".into(), "m::U".into())),
    _ => cx.args.push(("M".into(), "y".into(), "*mut S".into())),
  }
  if mentions(&toks, "v") && ch.flag() {
    cx.fns.push(("v".into(), vec![], "c_int".into()));
  }
  if mentions(&toks, "h") && ch.flag() {
    cx.fns.push(("h".into(), vec!["f64".into()], "m::U".into()));
  }
  cx.fns.push(("f".into(), params, ret.into()));
  let g = run(ch, &cx, ps, &toks);
  let w = want(&cx, ps, &[&e], false);
  judge(&cx, ps, g, w, true)
}

/// Contexts which answer a subset of the questions, by other ways of implementing them.
mod ways {
  use super::*;
  use cmacro::CodegenContext;
  pub struct Own(pub Cx);
  impl CodegenContext for Own {
    fn rust_target(&self) -> Option<String> {
      (&&self.0).rust_target()
    }
    fn ffi_prefix(&self) -> Option<syn::Path> {
      (&&self.0).ffi_prefix()
    }
    fn trait_prefix(&self) -> Option<syn::Path> {
      (&&self.0).trait_prefix()
    }
    fn macro_arg_ty(&self, m: &str, a: &str) -> Option<syn::Type> {
      (&&self.0).macro_arg_ty(m, a)
    }
    fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
      (&&self.0).resolve_enum_variant(v)
    }
    fn resolve_ty(&self, t: &str) -> Option<syn::Type> {
      (&&self.0).resolve_ty(t)
    }
    fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
      (&&self.0).resolve_field_ty(t, f)
    }
    fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
      (&&self.0).function(n)
    }
  }
  macro_rules! only {
    ($n:ident, $f:ident($($a:ident),*) -> $r:ty) => {
      pub struct $n(pub Cx);
      impl CodegenContext for $n {
        fn $f(&self $(, $a: &str)*) -> Option<$r> {
          (&&self.0).$f($($a),*)
        }
      }
    };
  }
  only!(Target, rust_target() -> String);
  only!(Ffi, ffi_prefix() -> syn::Path);
  only!(Tr, trait_prefix() -> syn::Path);
  only!(Arg, macro_arg_ty(m, a) -> syn::Type);
  only!(Variant, resolve_enum_variant(v) -> (syn::Type, syn::Expr));
  only!(Ty, resolve_ty(t) -> syn::Type);
  only!(Field, resolve_field_ty(t, f) -> syn::Type);
  only!(Fun, function(n) -> (Vec<syn::Type>, syn::Type));

  pub fn generate<C: CodegenContext>(cx: C, func: bool, toks: &[String]) -> Result<String, String> {
    let mut m = cmacro::MacroSet::new();
    guard(|| {
      if func {
        m.define_fn_macro("M", ["x", "y"], toks);
        let (a, t) = m.expand_fn_macro("M").map_err(|e| format!("{e:?}"))?;
        let mut f = cmacro::FnMacro::parse("M", &a, &t).map_err(|e| format!("{e:?}"))?;
        f.generate(cx).map(|t| t.to_string()).map_err(|e| format!("{e:?}"))
      } else {
        m.define_var_macro("M", toks);
        let t = m.expand_var_macro("M").map_err(|e| format!("{e:?}"))?;
        let mut v = cmacro::VarMacro::parse("M", &t).map_err(|e| format!("{e:?}"))?;
        v.generate(cx).map(|(e, t)| format!("{e} : {t:?}")).map_err(|e| format!("{e:?}"))
      }
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
  }
}

fn c24_ways(ch: &mut Ch) -> V {
  use ways::*;
  let func = ch.flag();
  let way = ch.pick(13);
  let leaves: &[&'static str] = if func { &["x", "y", "E1", "1"] } else { &["E1", "1"] };
  let n = ch.pick(ch.tier.q(2, 3));
  let e = expr(ch, n, leaves);
  let mut toks = cexpr::print(&e, MIN);
  match ch.pick(4) {
    0 => {},
    1 => toks.extend(["+", "sizeof", "(", "long", ")"].map(String::from)),
    2 => toks.extend(["==", "'a'"].map(String::from)),
    _ => toks = ["(", "unsigned", "char", ")", "("].map(String::from).into_iter().chain(toks).chain([")".to_string()]).collect(),
  }
  let cx = Cx {
    types: vec![("T".into(), "m::T".into()), ("S".into(), "S".into())],
    enums: vec![("E1".into(), "En".into(), "En::E1".into())],
    fields: vec![("S".into(), "fld".into(), "c_int".into())],
    fns: vec![("f".into(), vec!["c_int".into()], "c_int".into()), ("g".into(), vec!["S".into(), "c_int".into()], "S".into())],
    args: vec![("M".into(), "x".into(), "S".into()), ("M".into(), "y".into(), "*mut S".into())],
    ffi: Some("::ffi".into()),
    tr: Some("::tr".into()),
    target: Some("1.51.0".into()),
  };
  let none = Cx::default();
  ch.note(format!("{}{}   [way {way}]", if func { "M(x, y) " } else { "" }, toks.join(" ")));
  // The tables the context has, in the order of the ways below.
  let keep = |f: fn(&mut Cx, Cx)| {
    let mut c = Cx::default();
    f(&mut c, cx.clone());
    c
  };
  let (want, got) = match way {
    0 => (cx.clone(), generate(Own(cx.clone()), func, &toks)),
    1 => (cx.clone(), generate(&Own(cx.clone()), func, &toks)),
    2 => (cx.clone(), generate(&&Own(cx.clone()), func, &toks)),
    3 => (cx.clone(), generate(&&cx, func, &toks)),
    4 => (none, generate((), func, &toks)),
    5 => (keep(|c, d| c.target = d.target), generate(Target(cx.clone()), func, &toks)),
    6 => (keep(|c, d| c.ffi = d.ffi), generate(Ffi(cx.clone()), func, &toks)),
    7 => (keep(|c, d| c.tr = d.tr), generate(Tr(cx.clone()), func, &toks)),
    8 => (keep(|c, d| c.args = d.args), generate(Arg(cx.clone()), func, &toks)),
    9 => (keep(|c, d| c.enums = d.enums), generate(Variant(cx.clone()), func, &toks)),
    10 => (keep(|c, d| c.types = d.types), generate(&Ty(cx.clone()), func, &toks)),
    11 => (keep(|c, d| c.fields = d.fields), generate(Field(cx.clone()), func, &toks)),
    _ => (keep(|c, d| c.fns = d.fns), generate(Fun(cx.clone()), func, &toks)),
  };
  let want = generate(&want, func, &toks);
  if got != want {
    return V::Fail(format!("{got:?}\nwith all answers from one context with the same answers: {want:?}"));
  }
  V::Ok(h(&want))
}

fn has_place_op(e: &E) -> bool {
  match e {
    E::Un("*" | "&", _) => true,
    E::Un(_, a) | E::Cast(_, a) => has_place_op(a),
    E::Bin(_, a, b) => has_place_op(a) || has_place_op(b),
    E::Cond(a, b, c) => has_place_op(a) || has_place_op(b) || has_place_op(c),
    _ => false,
  }
}

pub fn c24(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "variants", bounds: format!("every expression of up to {} operators which mentions an enum variant, in variable- and function-like macros; 22 Rust expressions for the variant: the code is that for a plain name with the expression in its place", t.q(1, 2)), f: |ch| c24_variant(ch, ch.tier.q(1, 2)) },
    Space { name: "types", bounds: "47 uses of a typedef name with every operand; 15 Rust types for it: the code is that for the same type spelled in C, or for a plain name with the type in its place".into(), f: c24_types },
    Space { name: "signatures", bounds: "calls with none to three arguments (two in the quick tier unless there are three parameters; parameters, a literal, a sum, what a parameter points to, another call) of a function with none to three parameters of 6 types and a result of 7, as a value and inside of an operator, the caller's parameters known or not".into(), f: c24_signatures },
    Space { name: "implementations", bounds: format!("every expression of up to {} operators: a context by value, by reference and by reference to a reference, `()`, and contexts which implement only one of the 8 questions give the same code as a context with the same answers", t.q(1, 2)), f: c24_ways },
    Space { name: "names", bounds: format!("every expression of up to {} operators with every subset of its variants, types and functions known, and other answers for the same names", t.q(2, 2)), f: |ch| c24_names(ch, 2) },
  ]
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C15" => vec![
      "in C, the operands have the same type or are literals, and the arguments of a call the types of its parameters: otherwise only the parameter types of the result are checked",
      "where only some operands have a known type (an unknown member), function and macro are both accepted, if the types fit",
    ],
    "C24" => vec!["context answers for names, not for paths: the members of a type given as a path are not looked up"],
    _ => vec![],
  }
}
