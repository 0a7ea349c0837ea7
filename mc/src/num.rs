//! Evaluates generated constant expressions with Rust's own types: literals without suffix are inferred as rustc
//! infers them, every operation is checked as in a constant.

use syn::{BinOp, Expr, Lit, Stmt, UnOp};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
  Bool,
  Char,
  Unit,
  Int { signed: bool, bits: u32 },
  F32,
  F64,
  /// Type variable.
  Var(usize),
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
  Int,
  Float,
  Bound(Ty),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
  Bool(bool),
  Char(char),
  Unit,
  /// `None`: an integer literal type which nothing determines.
  Int(i128, Option<(bool, u32)>),
  F32(f32),
  F64(f64),
}

#[derive(Debug, Clone)]
pub enum Stop {
  /// rustc rejects the program.
  Reject(String),
  /// Not an expression this evaluator knows.
  Unknown(String),
}
type R<X> = Result<X, Stop>;
fn rej<X>(s: impl Into<String>) -> R<X> {
  Err(Stop::Reject(s.into()))
}
fn unk<X>(s: impl Into<String>) -> R<X> {
  Err(Stop::Unknown(s.into()))
}

struct N {
  ty: Ty,
  k: K,
}
enum K {
  Int(i128),
  Float(String),
  Bool(bool),
  Char(char),
  Special(f64),
  Neg(Box<N>),
  Not(Box<N>),
  Bin(&'static str, Box<N>, Box<N>),
  Cast(Box<N>),
  If(Box<N>, Box<N>, Box<N>),
  SizeOf(Ty),
  Drop(Box<N>),
}

/// The type a name stands for on LP64 (x86-64 Linux).
pub fn ty_named(s: &str) -> Option<Ty> {
  let i = |signed, bits| Some(Ty::Int { signed, bits });
  match s.rsplit("::").next().unwrap().trim() {
    "bool" => Some(Ty::Bool),
    "char" => Some(Ty::Char),
    "f32" | "c_float" => Some(Ty::F32),
    "f64" | "c_double" => Some(Ty::F64),
    "i8" | "c_char" | "c_schar" => i(true, 8),
    "u8" | "c_uchar" => i(false, 8),
    "i16" | "c_short" => i(true, 16),
    "u16" | "c_ushort" => i(false, 16),
    "i32" | "c_int" | "wchar_t" => i(true, 32),
    "u32" | "c_uint" => i(false, 32),
    "i64" | "c_long" | "c_longlong" | "isize" | "c_ssize_t" | "c_ptrdiff_t" => i(true, 64),
    "u64" | "c_ulong" | "c_ulonglong" | "usize" | "c_size_t" => i(false, 64),
    "i128" => i(true, 128),
    "u128" => i(false, 128),
    "()" => Some(Ty::Unit),
    _ => None,
  }
}
pub fn ty_of(t: &syn::Type) -> Option<Ty> {
  match t {
    syn::Type::Path(p) if p.qself.is_none() => ty_named(&p.path.segments.last()?.ident.to_string()),
    syn::Type::Paren(p) => ty_of(&p.elem),
    syn::Type::Group(p) => ty_of(&p.elem),
    _ => None,
  }
}

pub fn fits(v: i128, signed: bool, bits: u32) -> bool {
  match (signed, bits) {
    (true, 128) => true,
    (false, 128) => v >= 0,
    (true, b) => v >= -(1i128 << (b - 1)) && v < 1i128 << (b - 1),
    (false, b) => v >= 0 && v < 1i128 << b,
  }
}
pub fn wrap(v: i128, signed: bool, bits: u32) -> i128 {
  if bits >= 128 {
    return v;
  }
  let m = v & ((1i128 << bits) - 1);
  if signed && m >> (bits - 1) & 1 == 1 {
    m - (1i128 << bits)
  } else {
    m
  }
}

struct Infer {
  vars: Vec<Kind>,
  /// The type variable which is the type of the whole expression.
  root: Option<Ty>,
}

impl Infer {
  fn fresh(&mut self, k: Kind) -> Ty {
    self.vars.push(k);
    Ty::Var(self.vars.len() - 1)
  }
  fn find(&self, t: Ty) -> Ty {
    match t {
      Ty::Var(i) => match self.vars[i] {
        Kind::Bound(t) => self.find(t),
        _ => t,
      },
      t => t,
    }
  }
  fn is_int(&self, t: Ty) -> bool {
    match self.find(t) {
      Ty::Int { .. } => true,
      Ty::Var(i) => self.vars[i] == Kind::Int,
      _ => false,
    }
  }
  fn is_float(&self, t: Ty) -> bool {
    match self.find(t) {
      Ty::F32 | Ty::F64 => true,
      Ty::Var(i) => self.vars[i] == Kind::Float,
      _ => false,
    }
  }
  fn unify(&mut self, a: Ty, b: Ty) -> R<()> {
    let (a, b) = (self.find(a), self.find(b));
    if a == b {
      return Ok(());
    }
    match (a, b) {
      (Ty::Var(i), t) | (t, Ty::Var(i)) => {
        let ok = match self.vars[i] {
          Kind::Int => self.is_int(t),
          Kind::Float => self.is_float(t),
          Kind::Bound(_) => unreachable!(),
        };
        if !ok {
          return rej(format!("mismatched types: a literal and {t:?}"));
        }
        self.vars[i] = Kind::Bound(t);
        Ok(())
      },
      (a, b) => rej(format!("mismatched types: {a:?} and {b:?}")),
    }
  }

  fn block(&mut self, b: &syn::Block, hint: Option<Ty>) -> R<N> {
    match &b.stmts[..] {
      [Stmt::Expr(e, None)] => self.expr(e, hint),
      [Stmt::Local(l)] if matches!(l.pat, syn::Pat::Wild(_)) => match &l.init {
        Some(i) => {
          let n = self.expr(&i.expr, None)?;
          Ok(N { ty: Ty::Unit, k: K::Drop(Box::new(n)) })
        },
        None => unk("let"),
      },
      _ => unk("block"),
    }
  }

  fn expr(&mut self, e: &Expr, hint: Option<Ty>) -> R<N> {
    self.expr_in(e, hint, false)
  }
  /// `cast`: the hint is the target of a cast.
  fn expr_in(&mut self, e: &Expr, hint: Option<Ty>, cast: bool) -> R<N> {
    let hint = hint.map(|t| self.find(t));
    match e {
      Expr::Paren(p) => self.expr_in(&p.expr, hint, cast),
      Expr::Group(p) => self.expr_in(&p.expr, hint, cast),
      Expr::Block(b) => self.block(&b.block, hint),
      Expr::Lit(l) => match &l.lit {
        Lit::Int(i) => {
          let v: i128 = match i.base10_digits().parse() {
            Ok(v) => v,
            Err(_) if matches!(i.suffix(), "f32" | "f64") => 0,
            Err(_) => return rej("integer literal is too large"),
          };
          let ty = if i.suffix().is_empty() {
            match hint {
              Some(t @ Ty::Int { .. }) => t,
              _ => self.fresh(Kind::Int),
            }
          } else {
            match ty_named(i.suffix()) {
              Some(t @ (Ty::Int { .. } | Ty::F32 | Ty::F64)) => t,
              _ => return rej("literal suffix"),
            }
          };
          if matches!(ty, Ty::F32 | Ty::F64) {
            return Ok(N { ty, k: K::Float(i.base10_digits().into()) });
          }
          Ok(N { ty, k: K::Int(v) })
        },
        Lit::Float(f) => {
          let ty = if f.suffix().is_empty() {
            match hint {
              Some(t @ (Ty::F32 | Ty::F64)) => t,
              _ => self.fresh(Kind::Float),
            }
          } else {
            match ty_named(f.suffix()) {
              Some(t @ (Ty::F32 | Ty::F64)) => t,
              _ => return rej("literal suffix"),
            }
          };
          Ok(N { ty, k: K::Float(f.base10_digits().into()) })
        },
        Lit::Bool(b) => Ok(N { ty: Ty::Bool, k: K::Bool(b.value) }),
        Lit::Char(c) => Ok(N { ty: Ty::Char, k: K::Char(c.value()) }),
        Lit::Byte(b) => Ok(N { ty: Ty::Int { signed: false, bits: 8 }, k: K::Int(b.value() as i128) }),
        _ => unk("literal"),
      },
      Expr::Path(p) => {
        let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
        let s: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
        if let [.., t, m @ ("MAX" | "MIN")] = s[..] {
          return match ty_named(t) {
            Some(ty @ Ty::Int { signed, bits }) if bits < 128 => {
              let max = if signed { (1i128 << (bits - 1)) - 1 } else { (1i128 << bits) - 1 };
              Ok(N { ty, k: K::Int(if m == "MAX" { max } else if signed { -max - 1 } else { 0 }) })
            },
            _ => unk("path"),
          };
        }
        let ty = match s.len() {
          0 | 1 => return unk("name"),
          n => match s[n - 2] {
            "f32" => Ty::F32,
            "f64" => Ty::F64,
            _ => return unk("path"),
          },
        };
        let v = match *s.last().unwrap() {
          "NAN" => f64::NAN,
          "INFINITY" => f64::INFINITY,
          "NEG_INFINITY" => f64::NEG_INFINITY,
          _ => return unk("path"),
        };
        Ok(N { ty, k: K::Special(v) })
      },
      Expr::Unary(u) => {
        let n = self.expr_in(&u.expr, hint, cast)?;
        let t = self.find(n.ty);
        match u.op {
          UnOp::Neg(_) => {
            if !self.is_int(t) && !self.is_float(t) || matches!(t, Ty::Int { signed: false, .. }) {
              return rej(format!("cannot negate {t:?}"));
            }
            Ok(N { ty: t, k: K::Neg(Box::new(n)) })
          },
          UnOp::Not(_) => {
            if !self.is_int(t) && t != Ty::Bool {
              return rej(format!("cannot apply ! to {t:?}"));
            }
            Ok(N { ty: t, k: K::Not(Box::new(n)) })
          },
          _ => unk("unary operator"),
        }
      },
      Expr::Binary(b) => {
        let op = match b.op {
          BinOp::Add(_) => "+",
          BinOp::Sub(_) => "-",
          BinOp::Mul(_) => "*",
          BinOp::Div(_) => "/",
          BinOp::Rem(_) => "%",
          BinOp::Shl(_) => "<<",
          BinOp::Shr(_) => ">>",
          BinOp::BitAnd(_) => "&",
          BinOp::BitOr(_) => "|",
          BinOp::BitXor(_) => "^",
          BinOp::Eq(_) => "==",
          BinOp::Ne(_) => "!=",
          BinOp::Lt(_) => "<",
          BinOp::Le(_) => "<=",
          BinOp::Gt(_) => ">",
          BinOp::Ge(_) => ">=",
          _ => return unk("operator"),
        };
        let l = self.expr(&b.left, None)?;
        let r = self.expr(&b.right, None)?;
        let (lt, rt) = (self.find(l.ty), self.find(r.ty));
        let num = |s: &Self, t| s.is_int(t) || s.is_float(t);
        let ty = match op {
          "<<" | ">>" => {
            if !self.is_int(lt) || !self.is_int(rt) {
              return rej(format!("{lt:?} {op} {rt:?}"));
            }
            lt
          },
          "+" | "-" | "*" | "/" | "%" => {
            self.unify(lt, rt)?;
            if !num(self, lt) {
              return rej(format!("{lt:?} {op} {rt:?}"));
            }
            lt
          },
          "&" | "|" | "^" => {
            self.unify(lt, rt)?;
            if !self.is_int(lt) && self.find(lt) != Ty::Bool {
              return rej(format!("{lt:?} {op} {rt:?}"));
            }
            lt
          },
          _ => {
            self.unify(lt, rt)?;
            Ty::Bool
          },
        };
        Ok(N { ty, k: K::Bin(op, Box::new(l), Box::new(r)) })
      },
      Expr::Cast(c) => {
        let to = match ty_of(&c.ty) {
          Some(t) => t,
          None => return unk("cast type"),
        };
        let n = self.expr_in(&c.expr, Some(to), true)?;
        let from = self.find(n.ty);
        let from_u8 = from == Ty::Int { signed: false, bits: 8 } || matches!(n.k, K::Int(_)) && self.is_int(from);
        let ok = match to {
          Ty::Int { .. } => self.is_int(from) || self.is_float(from) || matches!(from, Ty::Bool | Ty::Char),
          Ty::F32 | Ty::F64 => self.is_int(from) || self.is_float(from),
          Ty::Bool => from == Ty::Bool,
          Ty::Char => from == Ty::Char || from_u8,
          _ => false,
        };
        if !ok {
          return rej(format!("cast of {from:?} to {to:?}"));
        }
        Ok(N { ty: to, k: K::Cast(Box::new(n)) })
      },
      Expr::If(i) => {
        let c = self.expr(&i.cond, Some(Ty::Bool))?;
        self.unify(c.ty, Ty::Bool)?;
        // The type of a cast is no expectation for the branches.
        let hint = hint.filter(|_| !cast);
        let a = self.block(&i.then_branch, hint)?;
        let b = match &i.else_branch {
          Some((_, e)) => self.expr(e, hint)?,
          None => return unk("if without else"),
        };
        self.unify(a.ty, b.ty)?;
        Ok(N { ty: a.ty, k: K::If(Box::new(c), Box::new(a), Box::new(b)) })
      },
      Expr::Call(c) if c.args.is_empty() => {
        if let Expr::Path(p) = &*c.func {
          if let Some(l) = p.path.segments.last() {
            if l.ident == "size_of" {
              if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                  return match ty_of(t) {
                    Some(t) => Ok(N { ty: Ty::Int { signed: false, bits: 64 }, k: K::SizeOf(t) }),
                    None => unk("size_of"),
                  };
                }
              }
            }
          }
        }
        unk("call")
      },
      _ => unk("expression"),
    }
  }

  fn eval(&self, n: &N) -> R<Val> {
    let t = self.find(n.ty);
    // An integer type which only its default determines; `None` at the top level, where the constant's type would.
    let int = |t: Ty| match t {
      Ty::Int { signed, bits } => Some((signed, bits)),
      t if self.is_int(t) && self.root != Some(t) => Some((true, 32)),
      _ => None,
    };
    let fit = |v: Option<i128>, t: Ty| match (v, int(t)) {
      (Some(v), None) => Ok(Val::Int(v, None)),
      (Some(v), Some((s, b))) if fits(v, s, b) => Ok(Val::Int(v, Some((s, b)))),
      _ => rej("overflow"),
    };
    let fl = |v: f64, t: Ty| if t == Ty::F32 { Val::F32(v as f32) } else { Val::F64(v) };
    Ok(match &n.k {
      K::Int(v) => fit(Some(*v), t)?,
      K::Float(s) => {
        if t == Ty::F32 {
          Val::F32(s.parse().map_err(|_| Stop::Unknown("float".into()))?)
        } else {
          Val::F64(s.parse().map_err(|_| Stop::Unknown("float".into()))?)
        }
      },
      K::Bool(b) => Val::Bool(*b),
      K::Char(c) => Val::Char(*c),
      K::Special(v) => fl(*v, t),
      K::SizeOf(t) => Val::Int(
        match t {
          Ty::Int { bits, .. } => *bits as i128 / 8,
          Ty::F32 | Ty::Char => 4,
          Ty::F64 => 8,
          Ty::Bool => 1,
          Ty::Unit => 0,
          Ty::Var(_) => return unk("size_of"),
        },
        Some((false, 64)),
      ),
      K::Neg(a) => {
        if matches!(t, Ty::Int { signed: false, .. }) {
          return rej("the trait bound Neg is not satisfied for an unsigned type");
        }
        // A negated literal may be the smallest value of its type.
        if let K::Int(v) = a.k {
          return fit(Some(-v), t);
        }
        match self.eval(a)? {
          Val::Int(v, _) => fit(v.checked_neg(), t)?,
          Val::F32(f) => Val::F32(-f),
          Val::F64(f) => Val::F64(-f),
          _ => return unk("-"),
        }
      },
      K::Not(a) => match self.eval(a)? {
        Val::Int(v, t) => Val::Int(if let Some((false, b)) = t { wrap(!v, false, b) } else { !v }, t),
        Val::Bool(b) => Val::Bool(!b),
        _ => return unk("!"),
      },
      K::Drop(a) => {
        self.eval(a)?;
        Val::Unit
      },
      K::If(c, a, b) => match self.eval(c)? {
        // Constants in both branches are checked, but a branch is only evaluated if it is taken.
        Val::Bool(true) => self.eval(a)?,
        Val::Bool(false) => self.eval(b)?,
        _ => return unk("if"),
      },
      K::Cast(a) => {
        let v = self.eval(a)?;
        match (t, v) {
          (Ty::Int { signed, bits }, v) => {
            let x = match v {
              Val::Int(v, _) => wrap(v, signed, bits),
              Val::Bool(b) => b as i128,
              Val::Char(c) => wrap(c as u32 as i128, signed, bits),
              Val::F32(_) | Val::F64(_) => {
                let f = match v {
                  Val::F32(f) => f as f64,
                  Val::F64(f) => f,
                  _ => 0.0,
                };
                let (lo, hi) = if signed { (-(2f64.powi(bits as i32 - 1)), 2f64.powi(bits as i32 - 1)) } else { (0.0, 2f64.powi(bits as i32)) };
                if f.is_nan() {
                  0
                } else if f.trunc() < lo {
                  lo as i128
                } else if f.trunc() >= hi {
                  if bits < 127 { (hi as i128) - 1 } else { i128::MAX }
                } else {
                  f as i128
                }
              },
              Val::Unit => return unk("cast"),
            };
            Val::Int(x, Some((signed, bits)))
          },
          (Ty::F32, Val::Int(v, _)) => Val::F32(v as f32),
          (Ty::F64, Val::Int(v, _)) => Val::F64(v as f64),
          (Ty::F32, Val::F32(f)) => Val::F32(f),
          (Ty::F32, Val::F64(f)) => Val::F32(f as f32),
          (Ty::F64, Val::F32(f)) => Val::F64(f as f64),
          (Ty::F64, Val::F64(f)) => Val::F64(f),
          (Ty::Bool, Val::Bool(b)) => Val::Bool(b),
          (Ty::Char, Val::Int(v, _)) if (0..256).contains(&v) => Val::Char(v as u8 as char),
          _ => return unk("cast"),
        }
      },
      K::Bin(op, a, b) => {
        let (x, y) = (self.eval(a)?, self.eval(b)?);
        let cmp = |o: Option<std::cmp::Ordering>| {
          use std::cmp::Ordering::*;
          Val::Bool(match *op {
            "==" => o == Some(Equal),
            "!=" => o != Some(Equal),
            "<" => o == Some(Less),
            "<=" => matches!(o, Some(Less | Equal)),
            ">" => o == Some(Greater),
            _ => matches!(o, Some(Greater | Equal)),
          })
        };
        let is_cmp = matches!(*op, "==" | "!=" | "<" | "<=" | ">" | ">=");
        match (x, y) {
          (Val::Int(x, _), Val::Int(y, yt)) if matches!(*op, "<<" | ">>") => {
            let _ = yt;
            let bits = int(t).map_or(127, |t| t.1);
            if y < 0 || y >= bits as i128 {
              return rej("shift overflow");
            }
            match (*op, int(t)) {
              ("<<", Some((s, b))) => Val::Int(wrap(x.wrapping_shl(y as u32), s, b), Some((s, b))),
              ("<<", None) => match x.checked_mul(1i128.checked_shl(y as u32).unwrap_or(0)) {
                Some(v) => Val::Int(v, None),
                None => return rej("overflow"),
              },
              _ => Val::Int(x >> y, int(t)),
            }
          },
          (Val::Int(x, _), Val::Int(y, _)) if is_cmp => cmp(Some(x.cmp(&y))),
          (Val::Int(x, _), Val::Int(y, _)) => match *op {
            "+" => fit(x.checked_add(y), t)?,
            "-" => fit(x.checked_sub(y), t)?,
            "*" => fit(x.checked_mul(y), t)?,
            "/" => fit(x.checked_div(y), t)?,
            "%" => {
              // `MIN % -1` overflows as well.
              fit(x.checked_div(y), t)?;
              fit(x.checked_rem(y), t)?
            },
            "&" => fit(Some(x & y), t)?,
            "|" => fit(Some(x | y), t)?,
            _ => fit(Some(x ^ y), t)?,
          },
          (Val::F32(x), Val::F32(y)) if is_cmp => cmp(x.partial_cmp(&y)),
          (Val::F64(x), Val::F64(y)) if is_cmp => cmp(x.partial_cmp(&y)),
          (Val::F32(x), Val::F32(y)) => Val::F32(match *op {
            "+" => x + y,
            "-" => x - y,
            "*" => x * y,
            "/" => x / y,
            _ => x % y,
          }),
          (Val::F64(x), Val::F64(y)) => Val::F64(match *op {
            "+" => x + y,
            "-" => x - y,
            "*" => x * y,
            "/" => x / y,
            _ => x % y,
          }),
          (Val::Bool(x), Val::Bool(y)) if is_cmp => cmp(Some(x.cmp(&y))),
          (Val::Bool(x), Val::Bool(y)) => Val::Bool(match *op {
            "&" => x & y,
            "|" => x | y,
            _ => x ^ y,
          }),
          _ => return unk("operands"),
        }
      },
    })
  }
}

/// The value of `const X: ty = expr`, or of the expression alone.
pub fn value(expr: &str, ty: Option<&str>) -> R<Val> {
  let e: Expr = match syn::parse_str(expr) {
    Ok(e) => e,
    Err(e) => return rej(format!("not an expression: {e}")),
  };
  let ty = match ty {
    Some(t) => match syn::parse_str::<syn::Type>(t) {
      Ok(x) => match ty_of(&x) {
        Some(t) => Some(t),
        None => return unk(format!("type {t}")),
      },
      Err(_) => return rej(format!("not a type: {t}")),
    },
    None => None,
  };
  let mut i = Infer { vars: vec![], root: None };
  let n = i.expr(&e, ty)?;
  if let Some(t) = ty {
    i.unify(n.ty, t)?;
  }
  i.root = Some(i.find(n.ty));
  i.eval(&n)
}
