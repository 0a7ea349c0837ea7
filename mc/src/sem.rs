//! A common meaning for C expressions/statements and for the generated Rust code.
//!
//! Both sides are executed over a free term algebra: names stand for themselves, operators are
//! uninterpreted (apart from folding integer literals), assignments update a memory of places, calls and
//! volatile accesses are logged. Two pieces of code mean the same if, under every outcome of their
//! conditions, they yield the same value, the same memory and the same log.

use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum T {
  /// The initial value of a name.
  Leaf(String),
  Int(i128),
  Flt(String),
  Str(Vec<u8>),
  Un(&'static str, Rc<T>),
  Bin(&'static str, Rc<T>, Rc<T>),
  Cast(String, Rc<T>),
  SizeOf(String),
  Addr(Rc<P>),
  /// The initial content of a place.
  Load(Rc<P>),
  /// The result of the nth volatile read.
  VLoad(Rc<T>, usize),
  /// The nth call with this callee and these arguments.
  Call(String, Vec<T>, usize),
  Unit,
  /// A Rust `bool` converted to an integer: the same value, but not of type `bool`. Only ever the outermost
  /// constructor, and only while executing Rust.
  BoolInt(Rc<T>),
}

/// Without the type.
pub fn strip(t: T) -> T {
  match t {
    T::BoolInt(t) => (*t).clone(),
    t => t,
  }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum P {
  Var(String),
  /// A local variable (name, number of the declaration of that name).
  Local(String, usize),
  Mem(T),
  Field(Rc<P>, String),
  /// A value which is not an object.
  Tmp(T),
}

impl std::fmt::Display for T {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      T::Leaf(s) | T::Flt(s) => write!(f, "{s}"),
      T::Int(i) => write!(f, "{i}"),
      T::Str(b) => write!(f, "{:?}", String::from_utf8_lossy(b)),
      T::Un(o, a) => write!(f, "({o} {a})"),
      T::Bin(o, a, b) => write!(f, "({a} {o} {b})"),
      T::Cast(t, a) => write!(f, "(({t}) {a})"),
      T::SizeOf(t) => write!(f, "sizeof({t})"),
      T::Addr(p) => write!(f, "&{p}"),
      T::Load(p) => write!(f, "{p}"),
      T::VLoad(p, n) => write!(f, "volatile#{n}({p})"),
      T::Call(n, a, i) => {
        write!(f, "{n}#{i}(")?;
        for (k, x) in a.iter().enumerate() {
          write!(f, "{}{x}", if k > 0 { ", " } else { "" })?;
        }
        write!(f, ")")
      },
      T::Unit => write!(f, "void"),
      T::BoolInt(t) => write!(f, "{t}"),
    }
  }
}
impl std::fmt::Display for P {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      P::Var(s) => write!(f, "{s}"),
      P::Local(s, n) => write!(f, "local {s}#{n}"),
      P::Mem(t) => write!(f, "*{t}"),
      P::Field(p, s) => write!(f, "{p}.{s}"),
      P::Tmp(t) => write!(f, "[{t}]"),
    }
  }
}

pub fn is_bool(t: &T) -> bool {
  match t {
    T::Bin("==" | "!=" | "<" | "<=" | ">" | ">=", ..) => true,
    T::Bin("&" | "|" | "^", a, b) => is_bool(a) || is_bool(b),
    _ => false,
  }
}

fn fold(op: &str, a: i128, b: i128) -> Option<i128> {
  Some(match op {
    "+" => a.checked_add(b)?,
    "-" => a.checked_sub(b)?,
    "*" => a.checked_mul(b)?,
    "/" => a.checked_div(b)?,
    "%" => a.checked_rem(b)?,
    "<<" if (0..100).contains(&b) => a.checked_mul(1i128.checked_shl(b as u32)?)?,
    ">>" if (0..127).contains(&b) => a >> b,
    "&" => a & b,
    "^" => a ^ b,
    "|" => a | b,
    "==" => (a == b) as i128,
    "!=" => (a != b) as i128,
    "<" => (a < b) as i128,
    "<=" => (a <= b) as i128,
    ">" => (a > b) as i128,
    ">=" => (a >= b) as i128,
    _ => return None,
  })
}

pub fn bin(op: &'static str, a: T, b: T) -> T {
  if matches!((&a, &b), (T::BoolInt(_), _) | (_, T::BoolInt(_))) {
    let t = bin(op, strip(a), strip(b));
    return if is_bool(&t) && matches!(op, "&" | "|" | "^") { T::BoolInt(Rc::new(t)) } else { t };
  }
  // A null pointer constant is compared as 0.
  if matches!(op, "==" | "!=") {
    let null = T::Leaf("null".into());
    if a == null || b == null {
      let z = |t: T| if t == null { T::Int(0) } else { t };
      return bin(op, z(a), z(b));
    }
  }
  if let (T::Int(x), T::Int(y)) = (&a, &b) {
    if let Some(v) = fold(op, *x, *y) {
      return T::Int(v);
    }
  }
  if op == "!=" && b == T::Int(0) && is_bool(&a) {
    return a;
  }
  if op == "==" && b == T::Int(0) && is_bool(&a) {
    return not(a);
  }
  T::Bin(op, Rc::new(a), Rc::new(b))
}
pub fn neg(a: T) -> T {
  match strip(a) {
    T::Int(i) => T::Int(-i),
    T::Flt(s) => match s.strip_prefix('-') {
      Some(s) => T::Flt(s.to_string()),
      None => T::Flt(format!("-{s}")),
    },
    a => T::Un("-", Rc::new(a)),
  }
}
pub fn comp(a: T) -> T {
  match strip(a) {
    T::Int(i) => T::Int(!i),
    a => T::Un("~", Rc::new(a)),
  }
}
/// Logical negation, as a comparison.
pub fn not(a: T) -> T {
  match strip(a) {
    T::Int(i) => T::Int((i == 0) as i128),
    T::Leaf(l) if &*l == "null" => T::Int(1),
    T::Bin("==", x, y) => T::Bin("!=", x, y),
    T::Bin("!=", x, y) => T::Bin("==", x, y),
    a => T::Bin("==", Rc::new(a), Rc::new(T::Int(0))),
  }
}
pub fn cast(ty: &str, a: T) -> T {
  let a = strip(a);
  // A comparison is an `int`, as is a small number.
  if ty.rsplit(':').next() == Some("c_int") && (is_bool(&a) || matches!(&a, T::Int(i) if i32::try_from(*i).is_ok())) {
    return a;
  }
  // The integer promotions.
  if let (Some("c_int"), T::Cast(t, _)) = (ty.rsplit(':').next(), &a) {
    if matches!(t.rsplit(':').next(), Some("c_char" | "c_schar" | "c_uchar" | "c_short" | "c_ushort" | "u8" | "u16")) {
      return a;
    }
  }
  if ty == "*mut" || ty.starts_with('*') {
    if a == T::Int(0) {
      return T::Leaf("null".into());
    }
  }
  T::Cast(ty.to_string(), Rc::new(a))
}
pub fn addr(p: Rc<P>) -> T {
  match &*p {
    P::Mem(t) => t.clone(),
    _ => T::Addr(p),
  }
}
pub fn deref(t: T) -> Rc<P> {
  match strip(t) {
    T::Addr(p) => p,
    t => Rc::new(P::Mem(t)),
  }
}

/// What a condition evaluates to; keyed by the condition itself.
#[derive(Default, Clone)]
pub struct Oracle {
  pub known: BTreeMap<T, bool>,
  script: Vec<bool>,
  /// Decisions made by this run, in order.
  log: Vec<(T, bool)>,
  limit: usize,
}

pub enum Stop {
  /// Too many decisions or loop rounds: this path is not explored further.
  Cut,
  /// The code cannot be executed.
  Bad(String),
}
impl From<String> for Stop {
  fn from(s: String) -> Self {
    Stop::Bad(s)
  }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ev {
  Call(String, Vec<T>),
  VRead(T),
  VWrite(T, T),
  Other(String),
}

#[derive(Default)]
pub struct M {
  pub mem: BTreeMap<P, T>,
  pub ev: Vec<Ev>,
  pub oracle: Oracle,
  pub steps: u64,
}

impl M {
  pub fn truth(&mut self, c: T) -> Result<bool, Stop> {
    let c = strip(c);
    // Canonical form of the question.
    let c = if is_bool(&c) { c } else { bin("!=", c, T::Int(0)) };
    let (q, flip) = match &c {
      T::Int(i) => return Ok(*i != 0),
      T::Bin("==", x, y) => (bin("!=", (**x).clone(), (**y).clone()), true),
      _ => (c.clone(), false),
    };
    // An address is never null.
    if let T::Bin("!=", a, z) = &q {
      if **z == T::Int(0) && matches!(**a, T::Addr(_) | T::Str(_)) {
        return Ok(!flip);
      }
    }
    let o = &mut self.oracle;
    let v = match o.known.get(&q) {
      Some(v) => *v,
      None => {
        if o.log.len() >= o.limit {
          return Err(Stop::Cut);
        }
        let v = o.script.get(o.log.len()).copied().unwrap_or(false);
        o.log.push((q.clone(), v));
        o.known.insert(q, v);
        v
      },
    };
    Ok(v ^ flip)
  }
  pub fn read(&mut self, p: &Rc<P>) -> T {
    if let Some(v) = self.mem.get(p) {
      return v.clone();
    }
    match &**p {
      P::Var(n) => T::Leaf(n.clone()),
      P::Tmp(t) => t.clone(),
      _ => T::Load(self.copied(p)),
    }
  }
  /// A member of an object which holds a copy is that member of what was copied.
  fn copied(&self, p: &Rc<P>) -> Rc<P> {
    match &**p {
      P::Field(b, f) => {
        let b = match self.mem.get(b) {
          Some(v) => self.value_place(v.clone()),
          None => self.copied(b),
        };
        Rc::new(P::Field(b, f.clone()))
      },
      _ => p.clone(),
    }
  }
  pub fn write(&mut self, p: &Rc<P>, v: T) -> Result<(), Stop> {
    let mut q = p;
    loop {
      match &**q {
        P::Tmp(_) => return Err(Stop::Bad(format!("assignment to the temporary {p}"))),
        P::Field(b, _) => q = b,
        _ => break,
      }
    }
    self.mem.insert((**p).clone(), v);
    Ok(())
  }
  pub fn field(&mut self, p: Rc<P>, f: &str) -> Rc<P> {
    Rc::new(P::Field(p, f.to_string()))
  }
  /// The member of a value which is not an object.
  pub fn value_place(&self, t: T) -> Rc<P> {
    match strip(t) {
      T::Load(p) => p,
      T::Leaf(n) => Rc::new(P::Var(n)),
      t => Rc::new(P::Tmp(t)),
    }
  }
  pub fn call(&mut self, name: String, args: Vec<T>) -> T {
    let args: Vec<T> = args.into_iter().map(strip).collect();
    let e = Ev::Call(name.clone(), args.clone());
    let n = self.ev.iter().filter(|x| **x == e).count();
    self.ev.push(e);
    T::Call(name, args, n)
  }
  pub fn vread(&mut self, p: T) -> T {
    let p = strip(p);
    let e = Ev::VRead(p.clone());
    let n = self.ev.iter().filter(|x| **x == e).count();
    self.ev.push(e);
    T::VLoad(Rc::new(p), n)
  }
  pub fn vwrite(&mut self, p: T, v: T) {
    self.ev.push(Ev::VWrite(strip(p), strip(v)));
  }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Out {
  pub value: T,
  pub mem: BTreeMap<P, T>,
  pub ev: Vec<Ev>,
}

impl std::fmt::Display for Out {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "value {}", self.value)?;
    for (p, t) in &self.mem {
      write!(f, "; {p} := {t}")?;
    }
    for e in &self.ev {
      match e {
        Ev::Call(n, a) => write!(f, "; call {}", T::Call(n.clone(), a.clone(), 0))?,
        Ev::VRead(p) => write!(f, "; volatile read of {p}")?,
        Ev::VWrite(p, v) => write!(f, "; volatile write {p} := {v}")?,
        Ev::Other(s) => write!(f, "; {s}")?,
      }
    }
    Ok(())
  }
}

fn is_outer(p: &P) -> bool {
  match p {
    P::Var(_) | P::Mem(_) => true,
    P::Local(..) | P::Tmp(_) => false,
    P::Field(p, _) => is_outer(p),
  }
}

pub struct Path {
  pub known: BTreeMap<T, bool>,
  pub out: Result<Out, String>,
}

/// Run `f` under every outcome of the conditions not already decided by `known`.
pub fn paths(known: &BTreeMap<T, bool>, limit: usize, mut f: impl FnMut(&mut M) -> Result<T, Stop>) -> Vec<Path> {
  let mut out = vec![];
  let mut script: Vec<bool> = vec![];
  loop {
    let mut m = M { oracle: Oracle { known: known.clone(), script: script.clone(), log: vec![], limit }, ..Default::default() };
    let r = f(&mut m);
    let log = std::mem::take(&mut m.oracle.log);
    match r {
      Ok(value) => out.push(Path {
        known: m.oracle.known,
        out: Ok(Out { value: strip(value), mem: m.mem.into_iter().map(|(p, t)| (p, strip(t))).filter(|(p, t)| is_outer(p) && !is_initial(p, t)).collect(), ev: m.ev }),
      }),
      Err(Stop::Bad(s)) => out.push(Path { known: m.oracle.known, out: Err(s) }),
      Err(Stop::Cut) => {},
    }
    // Next script: flip the last `false` decision.
    let mut s: Vec<bool> = log.iter().map(|(_, b)| *b).collect();
    while let Some(b) = s.pop() {
      if !b {
        s.push(true);
        break;
      }
    }
    if s.is_empty() {
      return out;
    }
    script = s;
  }
}

/// Whether a place holds again what it held in the beginning.
fn is_initial(p: &P, t: &T) -> bool {
  match (p, t) {
    (P::Var(n), T::Leaf(m)) => n == m,
    (p, T::Load(q)) => *p == **q,
    _ => false,
  }
}

/// Compare a C program with the Rust code generated for it, on every path.
pub fn compare(
  limit: usize,
  c: &dyn Fn(&mut M, crate::cexpr::Order) -> Result<T, Stop>,
  r: &dyn Fn(&mut M) -> Result<T, Stop>,
) -> Result<(u64, u64), String> {
  let mut hash = 0u64;
  let mut n = 0u64;
  for p in paths(&BTreeMap::new(), limit, |m| c(m, crate::cexpr::ORDERS[0])) {
    if let Err(e) = p.out {
      return Err(format!("harness: the C code cannot be executed: {e}"));
    }
    let want = crate::cexpr::accept(&p.known, limit, c);
    let cond = || p.known.iter().map(|(t, b)| format!("{t} is {}", if *b { "true" } else { "false" })).collect::<Vec<_>>().join(", ");
    let w = || want.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("\n  or ");
    let got = paths(&p.known, limit, r);
    if got.is_empty() {
      return Err(format!("the Rust code does not end where the C code does\nif {}\nC:    {}", cond(), w()));
    }
    for g in got {
      match g.out {
        Ok(o) if want.contains(&o) => hash ^= crate::engine::h(&o).rotate_left(n as u32),
        Ok(o) => return Err(format!("if {}\nC:    {}\nRust: {o}", cond(), w())),
        Err(e) => return Err(format!("if {}\nC:    {}\nRust: {e}", cond(), w())),
      }
      n += 1;
    }
  }
  Ok((hash, n))
}
