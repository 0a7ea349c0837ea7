//! C17, C18: statements, executed on both sides.

use super::ex::{against, cx};
use crate::cexpr::*;
use crate::engine::*;
use crate::gen::{self, Gen};
use crate::sem::*;

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C17" => vec![
      "a macro's arguments are plain variables: an argument with side effects may be evaluated more than once",
      "where C leaves the order of evaluation open, the generated code may use any of four fixed orders",
      "a condition decides each question at most a bounded number of times, loops are unrolled accordingly",
      "empty statements, `while`, `for`, `switch`, `goto`, `&&`, `||` and the comma operator are not supported by the crate",
    ],
    "C18" => vec![
      "whether an object is volatile is decided by the casts in the macro: names, members and calls have no volatile type of their own",
      "C leaves it open whether the value of an assignment is read back; the generated code does not read it back",
      "where C leaves the order of evaluation open, the generated code may use any of four fixed orders",
    ],
    _ => vec![],
  }
}

fn id(n: &str) -> E {
  E::Id(n.into())
}
fn bx(n: &str) -> Box<E> {
  Box::new(id(n))
}
fn num(n: i128) -> E {
  E::Num(n.to_string(), n)
}
fn asg(op: &'static str, a: E, b: E) -> E {
  E::Asg(op, Box::new(a), Box::new(b))
}
fn un(op: &'static str, a: E) -> E {
  E::Un(op, Box::new(a))
}
fn post(op: &'static str, a: E) -> E {
  E::Post(op, Box::new(a))
}
fn b2(op: &'static str, a: E, b: E) -> E {
  E::Bin(op, Box::new(a), Box::new(b))
}
fn call(f: &str, a: Vec<E>) -> E {
  E::Call(f.into(), a)
}
fn fld(a: E) -> E {
  E::Dot(Box::new(a), "m".into())
}

/// Expression statements; the first `n` of them are the reduced set.
pub fn atoms() -> Vec<E> {
  let (x, y, t) = (|| id("x"), || id("y"), || id("t"));
  vec![
    asg("=", x(), y()),
    post("++", x()),
    call("f", vec![x()]),
    asg("=", t(), x()),
    asg("=", y(), t()),
    asg("+=", x(), y()),
    asg("-=", y(), call("f", vec![x()])),
    asg("=", x(), num(1)),
    // The rest is only used in small programs.
    asg("=", x(), asg("=", y(), t())),
    asg("+=", x(), asg("-=", y(), num(1))),
    asg("=", x(), post("++", y())),
    asg("=", x(), un("--", y())),
    un("++", t()),
    post("--", y()),
    asg("<<=", x(), y()),
    asg("|=", x(), b2("<<", num(1), y())),
    asg("=", x(), b2("<", x(), y())),
    asg("=", x(), un("!", y())),
    asg("=", un("*", x()), y()),
    asg("=", x(), un("*", y())),
    asg("+=", E::Arrow(bx("x"), "m".into()), y()),
    asg("=", fld(x()), post("++", fld(y()))),
    asg("=", E::Index(bx("x"), bx("y")), t()),
    asg("=", un("*", post("++", x())), y()),
    asg("+=", un("*", un("++", x())), y()),
    asg("=", E::Index(bx("x"), Box::new(post("++", y()))), t()),
    E::Cast(VOID, bx("x")),
    E::Cast(VOID, Box::new(call("f", vec![x()]))),
    x(),
    E::Cond(bx("x"), Box::new(call("f", vec![y()])), Box::new(call("f", vec![t()]))),
    asg("=", x(), E::Cond(Box::new(b2("<", x(), y())), bx("y"), Box::new(post("--", t())))),
    call("g", vec![x(), post("++", y())]),
    call("f", vec![asg("=", x(), y())]),
    asg("=", x(), call("g", vec![call("f", vec![y()]), t()])),
  ]
}
const REDUCED_ATOMS: usize = 8;

pub fn conds() -> Vec<E> {
  let (x, y) = (|| id("x"), || id("y"));
  vec![
    x(),
    b2("<", x(), y()),
    post("--", x()),
    call("f", vec![y()]),
    // Only in small programs.
    num(0),
    un("!", x()),
    b2("==", x(), num(0)),
    b2("&", x(), y()),
    un("++", y()),
    asg("=", x(), y()),
    un("-", x()),
    un("*", x()),
    E::Cond(bx("x"), bx("y"), bx("t")),
  ]
}
const REDUCED_CONDS: usize = 4;

pub struct Prog {
  pub atoms: Vec<E>,
  pub conds: Vec<E>,
}
impl Prog {
  pub fn new(full: bool) -> Self {
    let mut p = Prog { atoms: atoms(), conds: conds() };
    if !full {
      p.atoms.truncate(REDUCED_ATOMS);
      p.conds.truncate(REDUCED_CONDS);
    }
    p
  }
  fn cond(&self, ch: &mut Ch) -> E {
    self.conds[ch.pick(self.conds.len())].clone()
  }
  /// Exactly `n` statement nodes in sequence.
  pub fn seq(&self, ch: &mut Ch, n: usize) -> Vec<S> {
    if n == 0 {
      return vec![];
    }
    let k = 1 + ch.pick(n);
    let mut v = vec![self.stmt(ch, k, true)];
    v.extend(self.seq(ch, n - k));
    v
  }
  pub fn stmt(&self, ch: &mut Ch, n: usize, decl: bool) -> S {
    if n == 1 {
      let i = ch.pick(self.atoms.len() + 1 + if decl { 2 } else { 0 });
      if i < self.atoms.len() {
        return S::Expr(self.atoms[i].clone());
      }
      return match i - self.atoms.len() {
        0 => S::Block(vec![]),
        1 => S::Decl(INT, "t".into(), id("y")),
        _ => S::Decl(INT, "x".into(), E::Num("0".into(), 0)),
      };
    }
    match ch.pick(if n > 2 { 4 } else { 3 }) {
      0 => S::If(self.cond(ch), Box::new(self.stmt(ch, n - 1, false)), None),
      1 => {
        let c = self.cond(ch);
        S::Do(Box::new(self.stmt(ch, n - 1, false)), c)
      },
      2 => S::Block(self.seq(ch, n - 1)),
      _ => {
        let c = self.cond(ch);
        let k = 1 + ch.pick(n - 2);
        let a = self.stmt(ch, k, false);
        let b = self.stmt(ch, n - 1 - k, false);
        // `if (a) if (b) x; else y;`: the `else` belongs to the inner `if`.
        let a = if dangling(&a) { S::Block(vec![a]) } else { a };
        S::If(c, Box::new(a), Some(Box::new(b)))
      },
    }
  }
}
fn dangling(s: &S) -> bool {
  match s {
    S::If(_, _, None) => true,
    S::If(_, _, Some(b)) => dangling(b),
    _ => false,
  }
}

/// How the names are known.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Use {
  Params,
  Names,
  /// Typed parameters, known functions.
  Typed(&'static str),
}

/// `int x` in a macro whose parameter is `x` is not a declaration of `x`.
fn declares(s: &S, n: &str) -> bool {
  match s {
    S::Decl(_, m, _) => m == n,
    S::Block(b) => b.iter().any(|s| declares(s, n)),
    S::If(_, a, b) => declares(a, n) || b.as_ref().map_or(false, |b| declares(b, n)),
    S::Do(a, _) => declares(a, n),
    S::Expr(_) | S::Asm(_) => false,
  }
}

pub fn run(ch: &mut Ch, prog: &[S], toks: &[String], params: &[&str], u: Use, limit: usize) -> V {
  ch.note(format!("{u:?}: {}", toks.join(" ")));
  let body: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
  let mut c = cx();
  let params = match u {
    Use::Names => &[][..],
    Use::Params => params,
    Use::Typed(t) => {
      c.args.push(("*".into(), "*".into(), t.into()));
      for (f, n) in [("f", 1), ("g", 2)] {
        c.fns.push((f.into(), vec![t.to_string(); n], t.into()));
      }
      params
    },
  };
  let g = match guard(|| gen::func(&c, "M", params, &body)) {
    Ok(Ok(g)) => g,
    Ok(Err(s)) | Err(s) => return V::Fail(s),
  };
  if let Gen::Err(st, er) = &g {
    if er.contains("dereference of non-pointer") {
      return V::Skip("reported as a type error");
    }
    return V::Fail(format!("reported: {st}: {er}"));
  }
  let r = guard(|| {
    against(g, limit, false, &|m, o| {
      let mut c = C { m, sc: Default::default(), o };
      c.stmts(prog)?;
      Ok(T::Unit)
    })
  });
  match r {
    Ok(Ok((hash, n))) => {
      ch.model_steps += n;
      V::Ok(hash)
    },
    Ok(Err(s)) | Err(s) => V::Fail(s),
  }
}

fn c17_case(ch: &mut Ch, n: usize, full: bool, uses: &[Use], limit: usize) -> V {
  let u = uses[ch.pick(uses.len())];
  let p = Prog::new(full);
  let prog = p.seq(ch, n);
  let params: &[&str] = if prog.iter().any(|s| declares(s, "x")) { &["y"] } else { &["x", "y"] };
  let last = !matches!(prog.last(), Some(S::Expr(_))) || ch.flag();
  let toks = print_stmts(&prog, last);
  run(ch, &prog, &toks, params, u, limit)
}

const USES: [Use; 4] = [Use::Params, Use::Names, Use::Typed("c_int"), Use::Typed("*mut c_int")];

pub fn c17(t: Tier) -> Vec<Space> {
  let mut v = vec![
    Space {
      name: "small",
      bounds: format!("every body of up to {} statement nodes (blocks, if, if-else, do-while, declarations, 34 expression statements, 13 conditions), with and without the last semicolon, in {} uses", t.q(2, 3), 4),
      f: |ch| {
        let m = ch.tier.q(2, 3);
        let n = 1 + ch.pick(m);
        c17_case(ch, n, true, &USES, 8)
      },
    },
    Space {
      name: "reduced",
      bounds: format!("every body of {} statement nodes of 8 expression statements and 4 conditions, in 2 uses", t.q("3", "3 to 4")),
      f: |ch| {
        let m = ch.tier.q(1, 2);
        let n = 3 + ch.pick(m);
        c17_case(ch, n, false, &[Use::Params, Use::Typed("c_int")], 6)
      },
    },
  ];
  v.push(Space {
    name: "nested",
    bounds: format!("every body of 4 to {} statement nodes of 3 expression statements (`x = y`, `y++`, `f(x)`), a declaration and 2 conditions (`x`, `y--`), parameters of unknown type", t.q(5, 6)),
    f: |ch| {
      let m = ch.tier.q(2, 3);
      let n = 4 + ch.pick(m);
      let p = Prog {
        atoms: vec![asg("=", id("x"), id("y")), post("++", id("y")), call("f", vec![id("x")])],
        conds: vec![id("x"), post("--", id("y"))],
      };
      let prog = p.seq(ch, n);
      let params: &[&str] = if prog.iter().any(|s| declares(s, "x")) { &["y"] } else { &["x", "y"] };
      let toks = print_stmts(&prog, true);
      run(ch, &prog, &toks, params, Use::Params, 5)
    },
  });
  if t == Tier::Quick {
    v.push(Space {
      name: "three",
      bounds: "every body of 3 statement nodes which is a single statement, all expression statements and conditions, parameters of unknown type".into(),
      f: |ch| {
        let p = Prog::new(true);
        let s = p.stmt(ch, 3, true);
        let params: &[&str] = if declares(&s, "x") { &["y"] } else { &["x", "y"] };
        let prog = [s];
        let toks = print_stmts(&prog, true);
        run(ch, &prog, &toks, params, Use::Params, 6)
      },
    });
  }
  v
}

const V: bool = true;
const N: bool = false;
/// Qualifier placements.
const VOL: &[CT] = &[
  ct(&["volatile", "int", "*"], "*mut c_int", &[V]),
  ct(&["int", "volatile", "*"], "*mut c_int", &[V]),
  ct(&["int", "*"], "*mut c_int", &[N]),
  ct(&["int", "*", "volatile"], "*mut c_int", &[N]),
  ct(&["volatile", "T", "*"], "*mut T", &[V]),
  ct(&["T", "volatile", "*"], "*mut T", &[V]),
  ct(&["volatile", "struct", "S", "*"], "*mut S", &[V]),
  ct(&["struct", "S", "volatile", "*"], "*mut S", &[V]),
  ct(&["const", "volatile", "int", "*"], "*mut c_int", &[V]),
  ct(&["volatile", "const", "int", "*"], "*mut c_int", &[V]),
  ct(&["int", "const", "volatile", "*"], "*mut c_int", &[V]),
  ct(&["const", "int", "volatile", "*"], "*mut c_int", &[V]),
  ct(&["volatile", "int", "volatile", "*"], "*mut c_int", &[V]),
  ct(&["volatile", "int", "const", "*"], "*mut c_int", &[V]),
  ct(&["const", "int", "*"], "*mut c_int", &[N]),
  ct(&["int", "const", "*"], "*mut c_int", &[N]),
  ct(&["volatile", "int", "*", "const"], "*const c_int", &[V]),
  ct(&["volatile", "int", "*", "volatile"], "*mut c_int", &[V]),
  ct(&["volatile", "unsigned", "char", "*"], "*mut c_uchar", &[V]),
  ct(&["unsigned", "char", "volatile", "*"], "*mut c_uchar", &[V]),
  ct(&["volatile", "unsigned", "long", "long", "*"], "*mut c_ulonglong", &[V]),
  ct(&["volatile", "short", "*"], "*mut c_short", &[V]),
  ct(&["T", "*"], "*mut T", &[N]),
  ct(&["volatile", "int", "*", "*"], "*mut *mut c_int", &[N, V]),
  ct(&["int", "*", "volatile", "*"], "*mut *mut c_int", &[V, N]),
  ct(&["volatile", "T", "*", "volatile", "*"], "*mut *mut T", &[V, V]),
];

/// Pointers made of a cast.
fn vol_ptr(k: usize, t: CT) -> E {
  let c = |e: E| E::Cast(t, Box::new(e));
  match k {
    0 => c(id("x")),
    1 => c(num(16)),
    2 => c(b2("+", id("x"), id("y"))),
    3 => b2("+", c(id("x")), id("y")),
    4 => b2("-", c(id("x")), num(1)),
    5 => c(call("f", vec![id("x")])),
    6 => c(post("++", id("x"))),
    7 => c(un("&", id("z"))),
    8 => E::Cast(INTP, Box::new(c(id("x")))),
    9 => c(E::Cast(INTP, Box::new(id("x")))),
    10 => un("*", c(id("x"))),
    11 => c(un("*", id("x"))),
    12 => un("&", un("*", c(id("x")))),
    13 => E::Cond(bx("z"), Box::new(c(id("x"))), Box::new(c(id("y")))),
    14 => asg("=", id("z"), c(id("x"))),
    15 => c(asg("=", id("z"), id("x"))),
    16 => un("&", E::Index(Box::new(c(id("x"))), bx("y"))),
    17 => post("++", un("*", c(id("x")))),
    18 => un("--", un("*", c(id("x")))),
    _ => c(E::Arrow(bx("x"), "q".into())),
  }
}
const PTRS: usize = 20;

fn vol_place_of(k: usize, p: E) -> E {
  match k {
    0 => un("*", p),
    1 => E::Index(Box::new(p), bx("w")),
    2 => E::Arrow(Box::new(p), "m".into()),
    3 => fld(un("*", p)),
    4 => fld(E::Index(Box::new(p), Box::new(num(2)))),
    5 => fld(E::Arrow(Box::new(p), "n".into())),
    6 => E::Index(Box::new(p), Box::new(post("++", id("w")))),
    _ => un("*", un("*", p)),
  }
}
const PLACES: usize = 8;

const COMPOUND: &[&str] = &["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="];

fn vol_access(k: usize, p: E) -> Vec<S> {
  let v = || id("v");
  let e = match k {
    0 => asg("=", v(), p),
    1 => asg("=", p, v()),
    2 => post("++", p),
    3 => post("--", p),
    4 => un("++", p),
    5 => un("--", p),
    6 => p,
    7 => E::Cast(VOID, Box::new(p)),
    8 => call("f", vec![p]),
    9 => asg("=", v(), post("++", p)),
    10 => asg("=", v(), un("--", p)),
    11 => asg("=", v(), asg("=", p, v())),
    12 => asg("=", v(), asg("+=", p, v())),
    13 => asg("=", p, post("++", v())),
    14 => asg("=", v(), un("!", p)),
    15 => asg("=", v(), b2("&", p, num(1))),
    16 => asg("=", v(), b2("-", v(), p)),
    17 => asg("=", v(), un("&", p)),
    18 => asg("=", p.clone(), p),
    19 => asg("-=", p.clone(), p),
    20 => asg("=", v(), E::Cond(Box::new(p.clone()), Box::new(p), Box::new(v()))),
    21 => return vec![S::If(p.clone(), Box::new(S::Expr(asg("=", p, num(1)))), Some(Box::new(S::Expr(asg("=", v(), num(0))))))],
    22 => return vec![S::Do(Box::new(S::Expr(asg("=", v(), num(1)))), b2("&", p, v()))],
    23 => return vec![S::Expr(asg("=", p.clone(), num(1))), S::Expr(asg("|=", p, v()))],
    24 => asg("=", v(), b2("<", p.clone(), p)),
    25 => asg("=", v(), un("-", p)),
    26 => asg("=", un("*", v()), p),
    27 => asg("=", E::Index(bx("v"), Box::new(p)), num(1)),
    28 => asg("*=", p, b2("+", v(), num(1))),
    29 => asg("-=", p, E::Cond(bx("v"), Box::new(num(1)), Box::new(num(2)))),
    30 => asg("=", p.clone(), b2("|", b2("&", p, un("~", v())), num(4))),
    k => asg(COMPOUND[k - 31], p, v()),
  };
  vec![S::Expr(e)]
}
const ACCESSES: usize = 31 + COMPOUND.len();

fn c18_case(ch: &mut Ch, types: &[CT], ptrs: &[usize], places: &[usize], accesses: &[usize], uses: &[Use]) -> V {
  let u = uses[ch.pick(uses.len())];
  let t = types[ch.pick(types.len())];
  let p = vol_ptr(ptrs[ch.pick(ptrs.len())], t);
  let pl = vol_place_of(places[ch.pick(places.len())], p);
  let prog = vol_access(accesses[ch.pick(accesses.len())], pl);
  let toks = print_stmts(&prog, true);
  run(ch, &prog, &toks, &["x", "y", "z", "w", "v"], u, 6)
}

const ALL_P: [usize; PTRS] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
fn upto(n: usize) -> Vec<usize> {
  (0..n).collect()
}

pub fn c18(t: Tier) -> Vec<Space> {
  let mut v = vec![
    Space {
      name: "types",
      bounds: format!("{} qualifier placements * {PLACES} kinds of place * {ACCESSES} kinds of access, in 4 uses", VOL.len()),
      f: |ch| c18_case(ch, VOL, &[0, 1], &upto(PLACES), &upto(ACCESSES), &USES),
    },
    Space {
      name: "pointers",
      bounds: format!("7 types * {PTRS} ways to make the pointer * {PLACES} kinds of place * {ACCESSES} kinds of access"),
      f: |ch| c18_case(ch, &[VOL[0], VOL[2], VOL[5], VOL[17], VOL[23], VOL[24], VOL[25]], &ALL_P, &upto(PLACES), &upto(ACCESSES), &[Use::Params]),
    },
  ];
  if t == Tier::Thorough {
    v.push(Space {
      name: "all",
      bounds: format!("{} qualifier placements * {PTRS} ways to make the pointer * {PLACES} kinds of place * {ACCESSES} kinds of access, in 4 uses", VOL.len()),
      f: |ch| c18_case(ch, VOL, &ALL_P, &upto(PLACES), &upto(ACCESSES), &USES),
    });
    v.push(Space {
      name: "sequences",
      bounds: "every pair of accesses to volatile and non-volatile places through 7 types".into(),
      f: |ch| {
        let types = [VOL[0], VOL[2], VOL[5], VOL[17], VOL[23], VOL[24], VOL[25]];
        let mut prog = vec![];
        for _ in 0..2 {
          let t = types[ch.pick(types.len())];
          let p = vol_ptr([0, 3, 6][ch.pick(3)], t);
          let pl = vol_place_of([0, 1, 2][ch.pick(3)], p);
          prog.extend(vol_access(ch.pick(ACCESSES), pl));
        }
        let toks = print_stmts(&prog, true);
        run(ch, &prog, &toks, &["x", "y", "z", "w", "v"], Use::Params, 6)
      },
    });
  }
  v
}
