//! C expressions: syntax tree, printer and execution over the term algebra of `sem`.

use crate::sem::*;
use std::rc::Rc;

/// A C type, as tokens and as the Rust type it corresponds to.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CT {
  pub toks: &'static [&'static str],
  pub rust: &'static str,
  /// For every pointer, from the outermost one: does it point to a volatile object?
  pub vol: &'static [bool],
}
pub const TY: CT = ct(&["T"], "T", &[]);
pub const INT: CT = ct(&["int"], "c_int", &[]);
pub const UCHAR: CT = ct(&["unsigned", "char"], "c_uchar", &[]);
pub const INTP: CT = ct(&["int", "*"], "*mut c_int", &[false]);
pub const TP: CT = ct(&["T", "*"], "*mut T", &[false]);
pub const SP: CT = ct(&["struct", "S", "*"], "*mut S", &[false]);
pub const BOOL: CT = ct(&["bool"], "bool", &[]);
pub const VOID: CT = ct(&["void"], "c_void", &[]);

pub const fn ct(toks: &'static [&'static str], rust: &'static str, vol: &'static [bool]) -> CT {
  CT { toks, rust, vol }
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
  Id(String),
  Num(String, i128),
  Str(String, Vec<u8>),
  Un(&'static str, Box<E>),
  Post(&'static str, Box<E>),
  Bin(&'static str, Box<E>, Box<E>),
  Asg(&'static str, Box<E>, Box<E>),
  Cond(Box<E>, Box<E>, Box<E>),
  Cast(CT, Box<E>),
  SizeOf(CT),
  Index(Box<E>, Box<E>),
  Dot(Box<E>, String),
  Arrow(Box<E>, String),
  Call(String, Vec<E>),
}

pub fn prec(e: &E) -> u8 {
  match e {
    E::Id(_) | E::Num(..) | E::Str(..) => 16,
    E::Post(..) | E::Index(..) | E::Dot(..) | E::Arrow(..) | E::Call(..) => 15,
    E::Un(..) | E::Cast(..) | E::SizeOf(_) => 14,
    E::Bin(op, ..) => match *op {
      "*" | "/" | "%" => 13,
      "+" | "-" => 12,
      "<<" | ">>" => 11,
      "<" | "<=" | ">" | ">=" => 10,
      "==" | "!=" => 9,
      "&" => 8,
      "^" => 7,
      "|" => 6,
      "&&" => 5,
      "||" => 4,
      _ => unreachable!("{op}"),
    },
    E::Cond(..) => 3,
    E::Asg(..) => 2,
  }
}

/// Which nodes get redundant parentheses.
#[derive(Clone, Copy)]
pub struct Paren {
  /// Bit per inner node, in print order.
  pub inner: u32,
  pub leaves: bool,
}
pub const MIN: Paren = Paren { inner: 0, leaves: false };

pub fn print(e: &E, p: Paren) -> Vec<String> {
  let mut o = vec![];
  let mut n = 0;
  pr(e, 0, p, &mut n, &mut o);
  o
}

fn pr(e: &E, min: u8, p: Paren, n: &mut u32, o: &mut Vec<String>) {
  let leaf = matches!(e, E::Id(_) | E::Num(..) | E::Str(..) | E::SizeOf(_));
  let extra = if leaf {
    p.leaves
  } else {
    let b = p.inner >> (*n).min(31) & 1 == 1;
    *n += 1;
    b
  };
  let par = extra || prec(e) < min;
  if par {
    o.push("(".into());
  }
  match e {
    E::Id(s) | E::Num(s, _) | E::Str(s, _) => o.push(s.clone()),
    E::Un(op, a) => {
      o.push(op.to_string());
      pr(a, 14, p, n, o);
    },
    E::Post(op, a) => {
      pr(a, 15, p, n, o);
      o.push(op.to_string());
    },
    E::Bin(op, a, b) => {
      pr(a, prec(e), p, n, o);
      o.push(op.to_string());
      pr(b, prec(e) + 1, p, n, o);
    },
    E::Asg(op, a, b) => {
      pr(a, 14, p, n, o);
      o.push(op.to_string());
      pr(b, 2, p, n, o);
    },
    E::Cond(c, a, b) => {
      pr(c, 4, p, n, o);
      o.push("?".into());
      pr(a, 2, p, n, o);
      o.push(":".into());
      pr(b, 3, p, n, o);
    },
    E::Cast(t, a) => {
      o.push("(".into());
      o.extend(t.toks.iter().map(|s| s.to_string()));
      o.push(")".into());
      pr(a, 14, p, n, o);
    },
    E::SizeOf(t) => {
      o.push("sizeof".into());
      o.push("(".into());
      o.extend(t.toks.iter().map(|s| s.to_string()));
      o.push(")".into());
    },
    E::Index(a, i) => {
      pr(a, 15, p, n, o);
      o.push("[".into());
      pr(i, 2, p, n, o);
      o.push("]".into());
    },
    E::Dot(a, f) => {
      pr(a, 15, p, n, o);
      o.push(".".into());
      o.push(f.clone());
    },
    E::Arrow(a, f) => {
      pr(a, 15, p, n, o);
      o.push("->".into());
      o.push(f.clone());
    },
    E::Call(f, args) => {
      o.push(f.clone());
      o.push("(".into());
      for (i, a) in args.iter().enumerate() {
        if i > 0 {
          o.push(",".into());
        }
        pr(a, 2, p, n, o);
      }
      o.push(")".into());
    },
  }
  if par {
    o.push(")".into());
  }
}

pub fn is_lvalue(e: &E) -> bool {
  match e {
    E::Id(_) | E::Index(..) | E::Arrow(..) => true,
    E::Un(op, _) => *op == "*",
    E::Dot(e, _) => is_lvalue(e),
    _ => false,
  }
}

/// Order of evaluation where C leaves it open.
#[derive(Clone, Copy)]
pub struct Order {
  pub rtl: bool,
  pub lhs_first: bool,
}
pub const ORDERS: [Order; 4] = [
  Order { rtl: false, lhs_first: false },
  Order { rtl: false, lhs_first: true },
  Order { rtl: true, lhs_first: false },
  Order { rtl: true, lhs_first: true },
];

pub enum CP {
  Obj(Rc<P>),
  Vol(T),
}

const ASSIGN_OPS: &[&str] = &["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"];

/// Lexical scopes of C locals.
#[derive(Default)]
pub struct Scopes {
  pub s: Vec<Vec<(String, Rc<P>)>>,
  pub decls: std::collections::BTreeMap<String, usize>,
}
impl Scopes {
  pub fn declare(&mut self, name: &str) -> Rc<P> {
    let n = self.decls.entry(name.to_string()).or_default();
    let p = Rc::new(P::Local(name.to_string(), *n));
    *n += 1;
    if self.s.is_empty() {
      self.s.push(vec![]);
    }
    self.s.last_mut().unwrap().push((name.to_string(), p.clone()));
    p
  }
  pub fn find(&self, name: &str) -> Rc<P> {
    for s in self.s.iter().rev() {
      if let Some((_, p)) = s.iter().rev().find(|(n, _)| n == name) {
        return p.clone();
      }
    }
    Rc::new(P::Var(name.to_string()))
  }
}

pub struct C<'a> {
  pub m: &'a mut M,
  pub sc: Scopes,
  pub o: Order,
}

/// What the casts in an expression say about its type: the volatility by pointer level.
fn levels(e: &E) -> Option<Vec<bool>> {
  match e {
    E::Cast(t, _) => Some(t.vol.to_vec()),
    E::Un("*", a) => levels(a).filter(|l| !l.is_empty()).map(|l| l[1..].to_vec()),
    E::Un("&", a) => levels(a).map(|mut l| {
      l.insert(0, vol_place(a));
      l
    }),
    E::Un("++" | "--", a) | E::Post(_, a) => levels(a),
    // Pointer arithmetic keeps the type of the pointer.
    E::Bin("+" | "-", a, b) => levels(a).filter(|l| !l.is_empty()).or_else(|| levels(b).filter(|l| !l.is_empty())),
    E::Index(a, b) => {
      levels(a).filter(|l| !l.is_empty()).or_else(|| levels(b).filter(|l| !l.is_empty())).map(|l| l[1..].to_vec())
    },
    E::Asg(_, a, _) => levels(a),
    E::Cond(_, a, b) => levels(a).or_else(|| levels(b)),
    _ => None,
  }
}
fn is_vol(e: &E) -> bool {
  levels(e).map_or(false, |l| l.first() == Some(&true))
}
fn vol_place(e: &E) -> bool {
  match e {
    E::Un("*", a) | E::Arrow(a, _) => is_vol(a),
    E::Index(a, b) => is_vol(&E::Bin("+", a.clone(), b.clone())),
    E::Dot(a, _) => vol_place(a),
    _ => false,
  }
}

impl C<'_> {
  fn place(&mut self, e: &E) -> Result<CP, Stop> {
    Ok(match e {
      E::Id(n) => CP::Obj(self.sc.find(n)),
      E::Un("*", a) => {
        let v = self.val(a)?;
        if is_vol(a) {
          CP::Vol(v)
        } else {
          CP::Obj(deref(v))
        }
      },
      E::Index(a, i) => {
        let (x, y) = self.two(a, i)?;
        let p = bin("+", x, y);
        if vol_place(e) {
          CP::Vol(p)
        } else {
          CP::Obj(deref(p))
        }
      },
      E::Dot(a, f) => {
        let b = if is_lvalue(a) {
          match self.place(a)? {
            CP::Obj(p) => p,
            CP::Vol(t) => {
              let p = self.m.field(deref(t), f);
              return Ok(CP::Vol(addr(p)));
            },
          }
        } else {
          let t = self.val(a)?;
          Rc::new(P::Tmp(t))
        };
        CP::Obj(self.m.field(b, f))
      },
      E::Arrow(a, f) => {
        let v = self.val(a)?;
        let b = self.m.field(deref(v), f);
        if is_vol(a) {
          CP::Vol(addr(b))
        } else {
          CP::Obj(b)
        }
      },
      e => {
        let t = self.val(e)?;
        CP::Obj(Rc::new(P::Tmp(t)))
      },
    })
  }
  fn two(&mut self, a: &E, b: &E) -> Result<(T, T), Stop> {
    if self.o.rtl {
      let y = self.val(b)?;
      let x = self.val(a)?;
      Ok((x, y))
    } else {
      let x = self.val(a)?;
      let y = self.val(b)?;
      Ok((x, y))
    }
  }
  fn load(&mut self, p: &CP) -> T {
    match p {
      CP::Obj(p) => self.m.read(p),
      CP::Vol(t) => self.m.vread(t.clone()),
    }
  }
  fn store(&mut self, p: &CP, v: T) -> Result<(), Stop> {
    match p {
      CP::Obj(p) => self.m.write(p, v),
      CP::Vol(t) => {
        self.m.vwrite(t.clone(), v);
        Ok(())
      },
    }
  }
  pub fn val(&mut self, e: &E) -> Result<T, Stop> {
    self.m.steps += 1;
    Ok(match e {
      E::Num(_, v) => T::Int(*v),
      E::Str(_, b) => {
        let mut b = b.clone();
        b.push(0);
        T::Str(b)
      },
      E::SizeOf(t) => T::SizeOf(t.rust.to_string()),
      E::Id(n) if n == "__LINE__" => T::Leaf("line".into()),
      E::Id(_) | E::Index(..) | E::Dot(..) | E::Arrow(..) | E::Un("*", _) => {
        let p = self.place(e)?;
        self.load(&p)
      },
      E::Un("&", a) => match self.place(a)? {
        CP::Obj(p) => addr(p),
        CP::Vol(t) => t,
      },
      E::Un(op @ ("++" | "--"), a) => {
        let p = self.place(a)?;
        let old = self.load(&p);
        let v = bin(if *op == "++" { "+" } else { "-" }, old, T::Int(1));
        self.store(&p, v.clone())?;
        v
      },
      E::Post(op, a) => {
        let p = self.place(a)?;
        let old = self.load(&p);
        self.store(&p, bin(if *op == "++" { "+" } else { "-" }, old.clone(), T::Int(1)))?;
        old
      },
      E::Un("+", a) => self.val(a)?,
      E::Un("-", a) => neg(self.val(a)?),
      E::Un("~", a) => comp(self.val(a)?),
      E::Un("!", a) => not(self.val(a)?),
      E::Un(op, _) => unreachable!("{op}"),
      E::Bin("&&", a, b) => {
        let x = self.val(a)?;
        if !self.m.truth(x)? {
          return Ok(T::Int(0));
        }
        let y = self.val(b)?;
        T::Int(self.m.truth(y)? as i128)
      },
      E::Bin("||", a, b) => {
        let x = self.val(a)?;
        if self.m.truth(x)? {
          return Ok(T::Int(1));
        }
        let y = self.val(b)?;
        T::Int(self.m.truth(y)? as i128)
      },
      E::Bin(op, a, b) => {
        let (x, y) = self.two(a, b)?;
        bin(op, x, y)
      },
      E::Asg(op, a, b) => {
        let mut old = None;
        let (p, v) = if self.o.lhs_first {
          let p = self.place(a)?;
          if !self.o.rtl && *op != "=" {
            old = Some(self.load(&p));
          }
          let v = self.val(b)?;
          (p, v)
        } else {
          let v = self.val(b)?;
          let p = self.place(a)?;
          (p, v)
        };
        let v = match op.strip_suffix('=').filter(|o| !o.is_empty()) {
          None => v,
          Some(op) => {
            let old = match old {
              Some(v) => v,
              None => self.load(&p),
            };
            bin(ASSIGN_OPS.iter().find(|o| **o == op).unwrap(), old, v)
          },
        };
        self.store(&p, v.clone())?;
        v
      },
      E::Cond(c, a, b) => {
        let x = self.val(c)?;
        if self.m.truth(x)? {
          self.val(a)?
        } else {
          self.val(b)?
        }
      },
      E::Cast(t, a) => {
        let v = self.val(a)?;
        if *t == VOID {
          T::Unit
        } else if matches!(v, T::Str(_)) {
          v
        } else if *t == BOOL {
          // 6.3.1.2: compared with zero.
          if is_bool(&v) { v } else { not(not(v)) }
        } else {
          cast(t.rust, v)
        }
      },
      E::Call(f, args) => {
        let mut v = vec![];
        if self.o.rtl {
          for a in args.iter().rev() {
            v.insert(0, self.val(a)?);
          }
        } else {
          for a in args {
            v.push(self.val(a)?);
          }
        }
        self.m.call(f.clone(), v)
      },
    })
  }
}

/// Every acceptable outcome of one path of a C program.
pub fn accept(known: &std::collections::BTreeMap<T, bool>, limit: usize, f: &dyn Fn(&mut M, Order) -> Result<T, Stop>) -> Vec<Out> {
  let mut v: Vec<Out> = vec![];
  for o in ORDERS {
    for p in paths(known, limit, |m| f(m, o)) {
      if let Ok(x) = p.out {
        if !v.contains(&x) {
          v.push(x);
        }
      }
    }
  }
  v
}

/// A C statement.
#[derive(Clone, Debug, PartialEq)]
pub enum S {
  Expr(E),
  Block(Vec<S>),
  If(E, Box<S>, Option<Box<S>>),
  Do(Box<S>, E),
  Decl(CT, String, E),
  Asm(Asm),
}

/// An assembler statement: keywords, pieces of the template, number of colons, operands, clobbers.
#[derive(Clone, Debug, PartialEq)]
pub struct Asm {
  pub words: Vec<&'static str>,
  pub template: Vec<String>,
  pub colons: usize,
  pub outs: Vec<(String, E)>,
  pub ins: Vec<(String, E)>,
  pub clobbers: Vec<String>,
}

fn quoted(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '"' | '\\' => {
        o.push('\\');
        o.push(c);
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

impl Asm {
  pub fn tokens(&self) -> Vec<String> {
    let mut o: Vec<String> = self.words.iter().map(|s| s.to_string()).collect();
    o.push("(".into());
    o.extend(self.template.iter().map(|s| quoted(s)));
    let operands = |l: &[(String, E)]| {
      let mut o = vec![];
      for (i, (c, e)) in l.iter().enumerate() {
        if i > 0 {
          o.push(",".into());
        }
        o.push(quoted(c));
        o.push("(".into());
        o.extend(print(e, MIN));
        o.push(")".into());
      }
      o
    };
    let clobbers = self.clobbers.iter().enumerate().flat_map(|(i, c)| if i > 0 { vec![",".to_string(), quoted(c)] } else { vec![quoted(c)] }).collect::<Vec<_>>();
    for (i, part) in [operands(&self.outs), operands(&self.ins), clobbers].into_iter().enumerate() {
      if i < self.colons {
        o.push(":".into());
        o.extend(part);
      }
    }
    o.push(")".into());
    o
  }
}

/// The register class a constraint asks for.
fn class(c: &str) -> String {
  match c.trim_start_matches(['=', '+']) {
    c if c.contains('r') => "reg",
    c if c.contains('Q') => "reg_abcd",
    c if c.contains('q') => "reg_byte",
    c if c.contains('f') => "freg",
    _ => "reg",
  }
  .into()
}

/// Statements as tokens; `last`: whether the semicolon at the very end is written.
pub fn print_stmts(s: &[S], last: bool) -> Vec<String> {
  let mut o = vec![];
  for x in s {
    pr_stmt(x, &mut o);
  }
  if !last && o.last().map_or(false, |t| t == ";") {
    o.pop();
  }
  o
}

fn pr_stmt(s: &S, o: &mut Vec<String>) {
  match s {
    S::Expr(e) => {
      o.extend(print(e, MIN));
      o.push(";".into());
    },
    S::Block(b) => {
      o.push("{".into());
      for x in b {
        pr_stmt(x, o);
      }
      o.push("}".into());
    },
    S::If(c, a, b) => {
      o.push("if".into());
      o.push("(".into());
      o.extend(print(c, MIN));
      o.push(")".into());
      pr_stmt(a, o);
      if let Some(b) = b {
        o.push("else".into());
        pr_stmt(b, o);
      }
    },
    S::Do(a, c) => {
      o.push("do".into());
      pr_stmt(a, o);
      o.push("while".into());
      o.push("(".into());
      o.extend(print(c, MIN));
      o.push(")".into());
      o.push(";".into());
    },
    S::Decl(t, n, e) => {
      o.extend(t.toks.iter().map(|s| s.to_string()));
      o.push(n.clone());
      o.push("=".into());
      o.extend(print(e, MIN));
      o.push(";".into());
    },
    S::Asm(a) => {
      o.extend(a.tokens());
      o.push(";".into());
    },
  }
}

impl C<'_> {
  pub fn asm(&mut self, a: &Asm) -> Result<(), Stop> {
    use crate::asm::*;
    let mut lines = c_template(&a.template.concat(), a.colons > 0).map_err(Stop::Bad)?;
    let basic = a.outs.is_empty() && a.ins.is_empty() && a.clobbers.is_empty();
    // An input tied to an output is the same operand.
    let mut number = (0..a.outs.len()).collect::<Vec<_>>();
    let mut free = vec![];
    let mut tied: Vec<Option<&E>> = vec![None; a.outs.len()];
    for (c, e) in &a.ins {
      match c.parse::<usize>() {
        Ok(d) => {
          tied[d] = Some(e);
          number.push(d);
        },
        Err(_) => {
          number.push(a.outs.len() + free.len());
          free.push((c, e));
        },
      }
    }
    for p in lines.iter_mut().flatten() {
      if let Piece::Op(n, _) = p {
        *n = *number.get(*n).ok_or_else(|| Stop::Bad("operand number out of range".into()))?;
      }
    }
    let mut ops = vec![];
    for ((c, e), tied) in a.outs.iter().zip(tied) {
      let p = self.place(e)?;
      let inn = match tied {
        Some(t) => Some(self.val(t)?),
        None if c.starts_with('+') => Some(self.load(&p)),
        None => None,
      };
      let name = match &p {
        CP::Obj(p) => place_name(p),
        CP::Vol(t) => format!("volatile {t}"),
      };
      let out: Box<dyn FnOnce(&mut M, T) -> Result<(), Stop>> = Box::new(move |m: &mut M, t: T| match p {
        CP::Obj(p) => m.write(&p, t),
        CP::Vol(v) => {
          m.vwrite(v, t);
          Ok(())
        },
      });
      ops.push(Op { class: class(c), inn, out: Some((name, out)) });
    }
    for (c, e) in free {
      let v = self.val(e)?;
      ops.push(Op { class: class(c), inn: Some(v), out: None });
    }
    let global = basic && global(&lines);
    // What a basic statement, i.e. one without clobbers, does to memory is not considered, as in upstream's fixtures.
    let memory = a.clobbers.iter().any(|c| c == "memory");
    Stmt {
      att: att(&lines),
      lines,
      ops,
      regs: a.clobbers.iter().filter(|c| !matches!(c.as_str(), "memory" | "cc")).cloned().collect(),
      memory: memory && !global,
      cc: a.clobbers.iter().any(|c| c == "cc") && !global,
      global,
    }
    .run(self.m)
  }
  pub fn stmts(&mut self, s: &[S]) -> Result<(), Stop> {
    self.sc.s.push(vec![]);
    let r = s.iter().try_for_each(|x| self.stmt(x));
    self.sc.s.pop();
    r
  }
  fn stmt(&mut self, s: &S) -> Result<(), Stop> {
    match s {
      S::Expr(e) => {
        self.val(e)?;
      },
      S::Block(b) => self.stmts(b)?,
      S::If(c, a, b) => {
        let c = self.val(c)?;
        if self.m.truth(c)? {
          self.stmts(std::slice::from_ref(&**a))?;
        } else if let Some(b) = b {
          self.stmts(std::slice::from_ref(&**b))?;
        }
      },
      S::Do(a, c) => {
        // Every round of a loop either needs a decision, of which there are only so many, or is the last one.
        for _ in 0..32 {
          self.stmts(std::slice::from_ref(&**a))?;
          let c = self.val(c)?;
          if !self.m.truth(c)? {
            return Ok(());
          }
        }
        return Err(Stop::Cut);
      },
      S::Decl(_, n, e) => {
        let v = self.val(e)?;
        let p = self.sc.declare(n);
        self.m.mem.insert((*p).clone(), v);
      },
      S::Asm(a) => self.asm(a)?,
    }
    Ok(())
  }
}
