//! Executes generated Rust code over the term algebra of `sem`.

use crate::sem::*;
use quote::ToTokens;
use std::rc::Rc;
use syn::{BinOp, Expr, Stmt, UnOp};

pub struct Rs<'a> {
  pub m: &'a mut M,
  /// Lexical scopes: name → place.
  scopes: Vec<Vec<(String, Rc<P>)>>,
  /// Number of declarations of each name so far.
  decls: std::collections::BTreeMap<String, usize>,
  pub rounds: usize,
  /// Names which stand for functions' parameters etc. need nothing special: an unknown name is a free variable.
  pub names: &'a dyn Fn(&str) -> Option<T>,
}

pub enum Flow {
  Stop(Stop),
  Break,
  Continue,
}
impl From<Stop> for Flow {
  fn from(s: Stop) -> Self {
    Flow::Stop(s)
  }
}
impl From<String> for Flow {
  fn from(s: String) -> Self {
    Flow::Stop(Stop::Bad(s))
  }
}
type R<X> = Result<X, Flow>;

fn bad<X>(s: impl Into<String>) -> R<X> {
  Err(Flow::Stop(Stop::Bad(s.into())))
}

/// Type text in the form used for comparison with C types.
pub fn ty_text(t: &impl ToTokens) -> String {
  let s: String = t.to_token_stream().to_string();
  let mut o = String::new();
  for w in s.split_whitespace() {
    if o.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') && w.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') {
      o.push(' ');
    }
    o.push_str(w);
  }
  // Separate pointer words again: `*mut*const u8`.
  o.replace("*mut*", "*mut *").replace("*const*", "*const *")
}

fn path_last(p: &syn::Path) -> String {
  p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn path_text(p: &syn::Path) -> String {
  p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl<'a> Rs<'a> {
  pub fn new(m: &'a mut M, rounds: usize, names: &'a dyn Fn(&str) -> Option<T>) -> Self {
    Rs { m, scopes: vec![vec![]], decls: Default::default(), rounds, names }
  }

  /// The code is the body of a function with these parameters: assigning to them has no effect on the caller's variables.
  pub fn params(mut self, sig: &syn::Signature) -> Self {
    for a in &sig.inputs {
      if let syn::FnArg::Typed(t) = a {
        if let syn::Pat::Ident(i) = &*t.pat {
          let n = i.ident.to_string();
          let p = self.declare(&n);
          self.m.mem.insert((*p).clone(), T::Leaf(n.trim_start_matches("r#").to_string()));
        }
      }
    }
    self
  }

  pub fn run_expr(&mut self, e: &Expr) -> Result<T, Stop> {
    Self::end(self.val(e))
  }
  pub fn run_stmts(&mut self, s: &[Stmt]) -> Result<T, Stop> {
    let r = self.stmts(s);
    Self::end(r)
  }
  fn end(r: R<T>) -> Result<T, Stop> {
    match r {
      Ok(t) => Ok(t),
      Err(Flow::Stop(s)) => Err(s),
      Err(_) => Err(Stop::Bad("`break` or `continue` outside of a loop".into())),
    }
  }

  fn declare(&mut self, name: &str) -> Rc<P> {
    let n = self.decls.entry(name.to_string()).or_default();
    let p = Rc::new(P::Local(name.to_string(), *n));
    *n += 1;
    self.scopes.last_mut().unwrap().push((name.to_string(), p.clone()));
    p
  }

  fn name_place(&mut self, name: &str) -> Rc<P> {
    // A substituted macro argument is not affected by names the macro introduces.
    if let Some(n) = name.strip_prefix("ARG_") {
      return Rc::new(P::Var(n.to_string()));
    }
    for s in self.scopes.iter().rev() {
      if let Some((_, p)) = s.iter().rev().find(|(n, _)| n == name) {
        return p.clone();
      }
    }
    Rc::new(P::Var(name.trim_start_matches("r#").to_string()))
  }

  /// Whether the expression denotes an object (rather than a value).
  fn is_place(e: &Expr) -> bool {
    match e {
      Expr::Path(_) => true,
      Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)),
      Expr::Field(f) => Self::is_place(&f.base),
      Expr::Paren(p) => Self::is_place(&p.expr),
      Expr::Group(p) => Self::is_place(&p.expr),
      _ => false,
    }
  }

  fn place(&mut self, e: &Expr) -> R<Rc<P>> {
    match e {
      Expr::Paren(p) => self.place(&p.expr),
      Expr::Group(p) => self.place(&p.expr),
      Expr::Path(p) => {
        let n = path_text(&p.path);
        if let Some(t) = (self.names)(&n) {
          return Ok(self.m.value_place(t));
        }
        Ok(self.name_place(&n))
      },
      Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
        // The pointer `{ p += 1; p }` for `++p`: there is no `+=` on pointers.
        if let Expr::Block(b) = &*u.expr {
          let one = |s: &Stmt| matches!(s, Stmt::Expr(Expr::Binary(b), _) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && b.right.to_token_stream().to_string() == "1");
          if b.block.stmts.iter().any(one) {
            return bad("a pointer is incremented like an integer");
          }
        }
        let v = self.val(&u.expr)?;
        Ok(deref(v))
      },
      Expr::Field(f) => {
        let name = f.member.to_token_stream().to_string();
        let name = name.trim_start_matches("ARG_").trim_start_matches("r#").to_string();
        let b = if Self::is_place(&f.base) {
          self.place(&f.base)?
        } else {
          let t = self.val(&f.base)?;
          Rc::new(P::Tmp(strip(t)))
        };
        Ok(self.m.field(b, &name))
      },
      e => {
        let t = self.val(e)?;
        Ok(Rc::new(P::Tmp(strip(t))))
      },
    }
  }

  fn cond(&mut self, e: &Expr) -> R<bool> {
    let t = self.val(e)?;
    // A Rust condition is a `bool`.
    Ok(self.m.truth(t)?)
  }

  fn binop(op: &BinOp) -> Option<(&'static str, bool)> {
    use BinOp::*;
    Some(match op {
      Add(_) => ("+", false),
      Sub(_) => ("-", false),
      Mul(_) => ("*", false),
      Div(_) => ("/", false),
      Rem(_) => ("%", false),
      BitXor(_) => ("^", false),
      BitAnd(_) => ("&", false),
      BitOr(_) => ("|", false),
      Shl(_) => ("<<", false),
      Shr(_) => (">>", false),
      Eq(_) => ("==", false),
      Lt(_) => ("<", false),
      Le(_) => ("<=", false),
      Ne(_) => ("!=", false),
      Ge(_) => (">=", false),
      Gt(_) => (">", false),
      AddAssign(_) => ("+", true),
      SubAssign(_) => ("-", true),
      MulAssign(_) => ("*", true),
      DivAssign(_) => ("/", true),
      RemAssign(_) => ("%", true),
      BitXorAssign(_) => ("^", true),
      BitAndAssign(_) => ("&", true),
      BitOrAssign(_) => ("|", true),
      ShlAssign(_) => ("<<", true),
      ShrAssign(_) => (">>", true),
      _ => return None,
    })
  }

  pub fn val(&mut self, e: &Expr) -> R<T> {
    self.m.steps += 1;
    match e {
      Expr::Paren(p) => self.val(&p.expr),
      Expr::Group(p) => self.val(&p.expr),
      Expr::Lit(l) => lit(&l.lit).map_err(|s| Flow::Stop(Stop::Bad(s))),
      Expr::Path(p) => {
        let n = path_text(&p.path);
        if let Some(t) = (self.names)(&n) {
          return Ok(t);
        }
        let p = self.place(e)?;
        Ok(self.m.read(&p))
      },
      Expr::Field(_) => {
        let p = self.place(e)?;
        Ok(self.m.read(&p))
      },
      Expr::Unary(u) => match u.op {
        UnOp::Deref(_) => {
          let p = self.place(e)?;
          Ok(self.m.read(&p))
        },
        UnOp::Neg(_) => Ok(neg(self.val(&u.expr)?)),
        UnOp::Not(_) => {
          let t = self.val(&u.expr)?;
          Ok(if rust_bool(&u.expr) || is_bool(&t) { not(t) } else { comp(t) })
        },
        _ => bad("unknown unary operator"),
      },
      Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
        let stop = matches!(b.op, BinOp::Or(_));
        if self.cond(&b.left)? == stop {
          return Ok(T::Int(stop as i128));
        }
        Ok(T::Int(self.cond(&b.right)? as i128))
      },
      Expr::Binary(b) => {
        let Some((op, assign)) = Self::binop(&b.op) else { return bad(format!("unexpected operator {}", b.op.to_token_stream())) };
        if assign {
          let r = self.val(&b.right)?;
          let p = self.place(&b.left)?;
          let old = self.m.read(&p);
          self.m.write(&p, bin(op, old, r))?;
          return Ok(T::Unit);
        }
        let l = self.val(&b.left)?;
        let r = self.val(&b.right)?;
        if l == T::Unit || r == T::Unit {
          return bad(format!("`()` is an operand of `{op}`"));
        }
        Ok(bin(op, l, r))
      },
      Expr::Assign(a) => {
        let r = self.val(&a.right)?;
        if r == T::Unit {
          return bad("`()` is assigned");
        }
        if matches!(&*a.left, Expr::Infer(_)) {
          return Ok(T::Unit);
        }
        let p = self.place(&a.left)?;
        self.m.write(&p, r)?;
        Ok(T::Unit)
      },
      Expr::Cast(c) => {
        let t = self.val(&c.expr)?;
        let ty = ty_text(&c.ty);
        if t == T::Unit {
          return bad("`()` is cast");
        }
        if matches!(t, T::Str(_)) {
          return Ok(t);
        }
        if ty.starts_with("*") && ty.ends_with('_') {
          return Ok(t);
        }
        // The type of size_of.
        if matches!(t, T::SizeOf(_)) && ty.ends_with("size_t") {
          return Ok(t);
        }
        if let T::Leaf(n) = &t {
          if n == "line" && ty.ends_with("c_uint") {
            return Ok(t);
          }
        }
        if is_bool(&t) && ty.rsplit(':').next() == Some("c_int") {
          return Ok(T::BoolInt(std::rc::Rc::new(t)));
        }
        Ok(cast(&ty, t))
      },
      Expr::If(i) => {
        let c = self.cond(&i.cond)?;
        if c {
          self.block(&i.then_branch)
        } else {
          match &i.else_branch {
            Some((_, e)) => self.val(e),
            None => Ok(T::Unit),
          }
        }
      },
      Expr::Block(b) => self.block(&b.block),
      Expr::Unsafe(b) => self.block(&b.block),
      Expr::Loop(l) => {
        for _ in 0..self.rounds {
          match self.block(&l.body) {
            Ok(_) | Err(Flow::Continue) => {},
            Err(Flow::Break) => return Ok(T::Unit),
            Err(e) => return Err(e),
          }
        }
        Err(Flow::Stop(Stop::Cut))
      },
      Expr::While(w) => {
        for _ in 0..self.rounds {
          if !self.cond(&w.cond)? {
            return Ok(T::Unit);
          }
          match self.block(&w.body) {
            Ok(_) | Err(Flow::Continue) => {},
            Err(Flow::Break) => return Ok(T::Unit),
            Err(e) => return Err(e),
          }
        }
        Err(Flow::Stop(Stop::Cut))
      },
      Expr::Break(_) => Err(Flow::Break),
      Expr::Continue(_) => Err(Flow::Continue),
      Expr::Reference(r) => {
        if r.mutability.is_none() {
          if let Expr::Lit(_) = &*r.expr {
            return self.val(&r.expr);
          }
        }
        let p = self.place(&r.expr)?;
        Ok(addr(p))
      },
      Expr::RawAddr(r) => {
        let p = self.place(&r.expr)?;
        self.address(p)
      },
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        let r = self.val(&m.receiver)?;
        let mut args = vec![];
        let mut minus = false;
        for a in &m.args {
          let a = if name == "offset" { as_isize(a, &mut minus) } else { a };
          args.push(self.val(a)?);
        }
        match (name.as_str(), &args[..]) {
          ("offset", [x]) if minus => Ok(bin("-", r, x.clone())),
          ("add" | "wrapping_add" | "offset", [x]) => Ok(bin("+", r, x.clone())),
          ("sub" | "wrapping_sub", [x]) => Ok(bin("-", r, x.clone())),
          ("into" | "as_ptr" | "as_bytes", []) => Ok(r),
          ("read_volatile", []) => Ok(self.m.vread(r)),
          ("write_volatile", [v]) => {
            self.m.vwrite(r, v.clone());
            Ok(T::Unit)
          },
          _ => bad(format!("unexpected method {name}")),
        }
      },
      Expr::Call(c) => {
        let mut args = vec![];
        // The callee is evaluated first.
        let callee = match &*c.func {
          Expr::Path(p) => p.path.clone(),
          f => return bad(format!("unexpected callee {}", f.to_token_stream())),
        };
        for a in &c.args {
          args.push(self.val(a)?);
        }
        let segs = path_text(&callee);
        let last2 = |s: &str| segs == s || segs.ends_with(&format!("::{s}"));
        if last2("ptr::null_mut") || last2("ptr::null") {
          return Ok(T::Leaf("null".into()));
        }
        if last2("ptr::read_volatile") && args.len() == 1 {
          let p = args.remove(0);
          return Ok(self.m.vread(p));
        }
        if last2("ptr::write_volatile") && args.len() == 2 {
          let v = args.remove(1);
          if v == T::Unit {
            return bad("`()` is written");
          }
          self.m.vwrite(args.remove(0), v);
          return Ok(T::Unit);
        }
        if last2("mem::size_of") {
          if let Some(seg) = callee.segments.last() {
            if let syn::PathArguments::AngleBracketed(g) = &seg.arguments {
              return Ok(T::SizeOf(ty_text(&g.args)));
            }
          }
        }
        let n = segs.trim_start_matches("ARG_").trim_start_matches("r#").to_string();
        // A local variable of that name is not the function.
        if !segs.starts_with("ARG_") && self.scopes.iter().any(|s| s.iter().any(|(x, _)| *x == n)) {
          return bad(format!("the called function {n} is hidden by a local variable"));
        }
        if args.iter().any(|a| *a == T::Unit) {
          return bad("`()` is passed as an argument");
        }
        Ok(self.m.call(n, args))
      },
      Expr::Macro(m) => self.mac(&m.mac),
      Expr::Tuple(t) if t.elems.is_empty() => Ok(T::Unit),
      e => bad(format!("unexpected expression {}", e.to_token_stream())),
    }
  }

  fn address(&mut self, p: Rc<P>) -> R<T> {
    if let P::Tmp(t) = &*p {
      return bad(format!("address of the temporary {t}"));
    }
    Ok(addr(p))
  }

  fn mac(&mut self, m: &syn::Macro) -> R<T> {
    match path_last(&m.path).as_str() {
      "addr_of_mut" | "addr_of" => {
        let e: Expr = match m.parse_body() {
          Ok(e) => e,
          Err(x) => return bad(format!("addr_of_mut: {x}")),
        };
        let p = self.place(&e)?;
        self.address(p)
      },
      "line" => Ok(T::Leaf("line".into())),
      "file" => Ok(T::Leaf("file".into())),
      "concat" => {
        let parts = match m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
          Ok(p) => p,
          Err(x) => return bad(format!("concat: {x}")),
        };
        let mut out = vec![];
        for e in parts {
          match self.val(&e)? {
            T::Str(b) => out.extend(b),
            T::Int(c) => {
              let mut buf = [0u8; 4];
              out.extend(char::from_u32(c as u32).unwrap_or('?').encode_utf8(&mut buf).bytes())
            },
            T::Leaf(n) => out.extend(format!("<{n}>").bytes()),
            t => return bad(format!("{t} in concat!")),
          }
        }
        Ok(T::Str(out))
      },
      "stringify" => Ok(T::Leaf(format!("#{}", m.tokens.to_string().trim_start_matches("ARG_")))),
      n @ ("asm" | "global_asm") => {
        let global = n == "global_asm";
        let c: crate::asm::Call = match m.parse_body() {
          Ok(c) => c,
          Err(x) => return bad(format!("{n}!: {x} in {}", m.tokens)),
        };
        let allowed: &[&str] = if global { &["att_syntax"] } else { &["att_syntax", "nomem", "preserves_flags"] };
        if let Some(o) = c.options.iter().find(|o| !allowed.contains(&o.as_str())) {
          return bad(format!("option {o} of {n}!"));
        }
        if global && !(c.ops.is_empty() && c.regs.is_empty() && !c.abi) {
          return bad("operands or clobbers of global_asm!");
        }
        if c.abi && c.ops.iter().any(|o| o.0 != "in") {
          return bad("clobber_abi with an output in any register");
        }
        if c.abi && c.regs.is_empty() {
          return bad("clobber_abi although no register is clobbered");
        }
        let lines = crate::asm::rust_template(&c.template)?;
        let mut ops = vec![];
        for (dir, class, e, to) in c.ops {
          let output = dir != "in";
          let input = matches!(dir.as_str(), "in" | "inout" | "inlateout");
          if to.is_some() && !(input && output) {
            return bad(format!("=> in an operand {dir}"));
          }
          let inn = if input { Some(self.val(&e)?) } else { None };
          let out: Option<(String, Box<dyn FnOnce(&mut M, T) -> Result<(), Stop>>)> = if output {
            let p = self.place(to.as_ref().unwrap_or(&e))?;
            let name = crate::asm::place_name(&p);
            Some((name, Box::new(move |m: &mut M, t: T| m.write(&p, t))))
          } else {
            None
          };
          ops.push(crate::asm::Op { class, inn, out });
        }
        let s = crate::asm::Stmt {
          global,
          att: c.options.contains("att_syntax"),
          lines,
          ops,
          regs: c.regs.into_iter().collect(),
          memory: !global && !c.options.contains("nomem"),
          cc: !global && !c.options.contains("preserves_flags"),
        };
        s.run(self.m)?;
        Ok(T::Unit)
      },
      n => bad(format!("unexpected macro {n}!")),
    }
  }

  fn block(&mut self, b: &syn::Block) -> R<T> {
    self.scopes.push(vec![]);
    let r = self.stmts(&b.stmts);
    self.scopes.pop();
    r
  }

  fn stmts(&mut self, s: &[Stmt]) -> R<T> {
    let mut v = T::Unit;
    for st in s {
      self.m.steps += 1;
      // An empty statement.
      if matches!(st, Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty()) {
        continue;
      }
      v = T::Unit;
      match st {
        Stmt::Local(l) => {
          let mut pat = &l.pat;
          if let syn::Pat::Type(t) = pat {
            pat = &t.pat;
          }
          let val = match &l.init {
            Some(i) => Some(self.val(&i.expr)?),
            None => None,
          };
          match pat {
            syn::Pat::Ident(i) => {
              if val == Some(T::Unit) {
                return bad("a variable is initialised with `()`");
              }
              let n = i.ident.to_string();
              let p = self.declare(&n);
              if let Some(v) = val {
                self.m.write(&p, v)?;
              }
            },
            syn::Pat::Wild(_) => {},
            p => return bad(format!("unexpected pattern {}", p.to_token_stream())),
          }
        },
        Stmt::Item(syn::Item::Const(c)) => {
          let val = self.val(&c.expr)?;
          let p = self.declare(&c.ident.to_string());
          self.m.write(&p, val)?;
        },
        Stmt::Item(syn::Item::Static(c)) => {
          let val = self.val(&c.expr)?;
          let n = c.ident.to_string();
          let p = self.declare(&n);
          self.m.ev.push(Ev::Other(format!("static {n}")));
          self.m.write(&p, val)?;
        },
        Stmt::Item(syn::Item::ForeignMod(f)) => {
          for it in &f.items {
            match it {
              syn::ForeignItem::Fn(f) => self.m.ev.push(Ev::Other(format!("declare {}", f.sig.to_token_stream()))),
              i => return bad(format!("unexpected item {}", i.to_token_stream())),
            }
          }
        },
        Stmt::Item(i) => return bad(format!("unexpected item {}", i.to_token_stream())),
        Stmt::Expr(e, semi) => {
          let x = self.val(e)?;
          if semi.is_none() {
            v = x;
          }
        },
        Stmt::Macro(m) => {
          let x = self.mac(&m.mac)?;
          if m.semi_token.is_none() {
            v = x;
          }
        },
      }
    }
    Ok(v)
  }
}

pub fn lit(l: &syn::Lit) -> Result<T, String> {
  Ok(match l {
    syn::Lit::Int(i) => T::Int(i.base10_parse::<i128>().map_err(|e| e.to_string())?),
    syn::Lit::Float(f) => T::Flt(f.base10_digits().to_string()),
    syn::Lit::Bool(b) => T::Int(b.value as i128),
    syn::Lit::Byte(b) => T::Int(b.value() as i128),
    syn::Lit::Char(c) => T::Int(c.value() as i128),
    syn::Lit::Str(s) => T::Str(s.value().into_bytes()),
    syn::Lit::ByteStr(s) => T::Str(s.value()),
    syn::Lit::CStr(s) => T::Str(s.value().to_bytes_with_nul().to_vec()),
    l => return Err(format!("unexpected literal {}", l.to_token_stream())),
  })
}

/// Whether an expression is a `bool` if it has a type at all, as far as can be seen from its operators.
fn rust_bool(e: &Expr) -> bool {
  let tail = |b: &syn::Block| matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if rust_bool(e));
  match e {
    Expr::Paren(p) => rust_bool(&p.expr),
    Expr::Group(p) => rust_bool(&p.expr),
    Expr::Binary(b) => match b.op {
      BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
      BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => rust_bool(&b.left) || rust_bool(&b.right),
      _ => false,
    },
    Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && rust_bool(&u.expr),
    Expr::If(i) => tail(&i.then_branch) || i.else_branch.as_ref().map_or(false, |(_, e)| rust_bool(e)),
    Expr::Block(b) => tail(&b.block),
    _ => false,
  }
}

/// What an offset of a pointer is converted from.
fn as_isize<'e>(e: &'e Expr, minus: &mut bool) -> &'e Expr {
  fn strip(e: &Expr) -> &Expr {
    match e {
      Expr::Paren(p) => strip(&p.expr),
      Expr::Group(p) => strip(&p.expr),
      e => e,
    }
  }
  match strip(e) {
    Expr::Cast(c) if ty_text(&c.ty) == "isize" => strip(&c.expr),
    Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) && matches!(strip(&u.expr), Expr::Cast(c) if ty_text(&c.ty) == "isize") => {
      *minus = true;
      as_isize(strip(&u.expr), minus)
    },
    e => e,
  }
}
