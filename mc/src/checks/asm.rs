//! C19: inline assembly.

use super::st;
use crate::asm::*;
use crate::cexpr::{Asm, E, S, CT, INT, INTP};
use crate::engine::*;
use crate::sem::M;
use std::collections::BTreeSet;

pub fn assumptions(_: &str) -> Vec<&'static str> {
  vec![
    "white space around a line of a template means nothing",
    "braces in a template are text, as on targets without dialect alternatives",
    "what looks like AT&T syntax, and which templates are for `global_asm!`, is decided as the crate documents it: `%`, `$` or an operand after `(`; a line which starts with .globl, .global or .section in a statement without operands",
    "any register of the class a constraint allows is as good as what it allows; memory operands are not supported",
    "named operands, `goto` labels, early clobbers and constraints for particular registers are reported as not supported",
  ]
}

fn id(n: &str) -> E {
  E::Id(n.into())
}
fn bx(e: E) -> Box<E> {
  Box::new(e)
}
fn un(o: &'static str, e: E) -> E {
  E::Un(o, bx(e))
}
fn num(n: i128) -> E {
  E::Num(n.to_string(), n)
}

/// Whether the statement is one GCC accepts.
fn valid(a: &Asm) -> bool {
  let n = a.outs.len() + a.ins.len();
  let Ok(l) = c_template(&a.template.concat(), a.colons > 0) else { return false };
  if l.iter().flatten().any(|p| matches!(p, Piece::Op(k, _) if *k >= n)) {
    return false;
  }
  let mut seen = BTreeSet::new();
  a.ins.iter().filter_map(|(c, _)| c.parse::<usize>().ok()).all(|d| d < a.outs.len() && a.outs[d].0.starts_with('=') && seen.insert(d))
}
/// Whether there is an operand with a modifier, which may be refused.
fn modified(a: &Asm) -> bool {
  c_template(&a.template.concat(), a.colons > 0).map_or(false, |l| l.iter().flatten().any(|p| matches!(p, Piece::Op(_, m) if !m.is_empty())))
}

const USES: [st::Use; 3] = [st::Use::Params, st::Use::Names, st::Use::Typed("c_int")];

fn case(ch: &mut Ch, prog: &[S], u: st::Use, last: bool) -> V {
  let mut refusable = false;
  for s in prog {
    if let S::Asm(a) = s {
      if !valid(a) {
        return V::Skip("not a statement GCC accepts");
      }
      refusable |= modified(a) || a.outs.iter().any(|(_, e)| format!("{e:?}").contains("volatile"));
    }
  }
  let toks = crate::cexpr::print_stmts(prog, last);
  match st::run(ch, prog, &toks, &["x", "y", "z"], u, 6) {
    V::Fail(s) if refusable && s.starts_with("reported: ") => V::Ok(3),
    v => v,
  }
}

fn plain(template: &str) -> Asm {
  Asm { words: vec!["__asm__"], template: vec![template.into()], colons: 0, outs: vec![], ins: vec![], clobbers: vec![] }
}

const CHUNKS: &[&str] = &["%0", "%1", "{", "}", "\n", "a", "(", ")", "$", "1", " ", "%%", "%eax", "%2", "\t", ",", "[", "%b0", "\"", "\\", "é", ";", "%", ":", "%w1", ".globl a", ".section", "{{", "{0}", "}}"];

fn c19_template(ch: &mut Ch, n: usize, chunks: usize) -> V {
  let k = ch.pick(n + 1);
  let mut t = String::new();
  for _ in 0..k {
    t.push_str(CHUNKS[ch.pick(chunks)]);
  }
  let mut a = plain(&t);
  match ch.pick(4) {
    0 => {},
    1 => {
      a.colons = 1;
      a.outs = vec![("=r".into(), id("x")), ("=r".into(), id("y"))];
    },
    2 => {
      a.colons = 2;
      a.outs = vec![("=r".into(), id("x"))];
      a.ins = vec![("0".into(), id("x")), ("r".into(), id("y"))];
    },
    _ => {
      a.colons = 3;
      a.clobbers = vec!["memory".into()];
    },
  }
  let u = [st::Use::Params, st::Use::Typed("c_int")][if a.outs.is_empty() { ch.pick(2) } else { 0 }];
  case(ch, &[S::Asm(a)], u, true)
}

const OUTS: &[&str] = &["=r", "+r", "=q", "=Q", "=f", "+rm", "=mr"];
const INS: &[&str] = &["r", "0", "1", "Ir", "q", "Q", "f", "g", "i"];

fn c19_operands(ch: &mut Ch, outs: usize, ins: usize, oc: usize, ic: usize) -> V {
  let names = ["x", "y", "z"];
  let o = ch.pick(outs + 1);
  let i = ch.pick(ins + 1);
  let mut a = plain("");
  for k in 0..o {
    a.outs.push((OUTS[ch.pick(oc)].into(), id(names[k])));
  }
  for k in 0..i {
    let c = INS[ch.pick(ic)];
    // The same as the output, or another.
    let e = match c.parse::<usize>() {
      Ok(d) if d >= o => return V::Skip("not a statement GCC accepts"),
      Ok(d) if ch.flag() => id(names[d]),
      _ => E::Bin("+", bx(id(names[k % 3])), bx(num(k as i128 + 1))),
    };
    a.ins.push((c.into(), e));
  }
  // Every operand, in one of several orders.
  let n = o + i;
  let order = ch.pick(3);
  let t: Vec<String> = (0..n).map(|k| format!("%{}", match order {
    0 => k,
    1 => n - 1 - k,
    _ => (k * 2 + 1) % n.max(1),
  })).collect();
  a.template = vec![format!("op {}", t.join(", "))];
  let cl: &[&str] = [&[][..], &["memory"], &["cc", "memory"], &["r1"]][ch.pick(4)];
  a.clobbers = cl.iter().map(|s| s.to_string()).collect();
  a.colons = if !cl.is_empty() { 3 } else { [2, 3][ch.pick(2)] };
  let u = USES[ch.pick(3)];
  case(ch, &[S::Asm(a)], u, true)
}

fn exprs() -> Vec<E> {
  vec![
    id("x"), id("v"), un("*", id("x")), E::Dot(bx(id("x")), "m".into()), E::Arrow(bx(id("x")), "m".into()), E::Index(bx(id("x")), bx(num(1))), E::Index(bx(id("x")), bx(id("y"))),
    un("*", E::Cast(INTP, bx(id("x")))), un("*", E::Cast(VP, bx(id("x")))), E::Arrow(bx(E::Cast(VSP, bx(id("x")))), "m".into()), un("*", un("*", id("x"))),
    // Values only from here.
    num(1), E::Bin("+", bx(id("x")), bx(id("y"))), E::Call("f".into(), vec![id("x")]), E::Cast(INT, bx(id("x"))), un("-", id("x")), un("&", id("v")), E::Bin("==", bx(id("x")), bx(num(0))), E::Cond(bx(id("x")), bx(num(1)), bx(num(2))), un("~", id("x")),
  ]
}
const PLACES: usize = 11;
const VP: CT = CT { toks: &["volatile", "int", "*"], rust: "*mut c_int", vol: &[true] };
const VSP: CT = CT { toks: &["volatile", "struct", "S", "*"], rust: "*mut S", vol: &[true] };

fn c19_exprs(ch: &mut Ch, n: usize) -> V {
  let es = exprs();
  let mut a = plain("op");
  a.colons = 3;
  let k = 1 + ch.pick(n);
  for _ in 0..k {
    match ch.pick(3) {
      0 => a.outs.push(("=r".into(), es[ch.pick(PLACES)].clone())),
      1 => a.outs.push(("+r".into(), es[ch.pick(PLACES)].clone())),
      _ => a.ins.push(("r".into(), es[ch.pick(es.len())].clone())),
    }
  }
  if ch.flag() {
    let Some(d) = a.outs.iter().position(|o| o.0 == "=r") else { return V::Skip("no output to tie to") };
    a.ins.push((d.to_string(), es[ch.pick(es.len())].clone()));
  }
  for i in 0..a.outs.len() + a.ins.len() {
    a.template[0].push_str(&format!(" %{i}"));
  }
  let u = [st::Use::Params, st::Use::Names, st::Use::Typed("c_int"), st::Use::Typed("*mut c_int")][ch.pick(4)];
  case(ch, &[S::Asm(a)], u, true)
}

fn c19_clobbers(ch: &mut Ch, n: usize) -> V {
  const CL: &[&str] = &["memory", "cc", "eax", "r1", "r10", "r2"];
  let mut a = plain(["", "nop", "mov $1, %0", ".globl a", "a\n.section b"][ch.pick(5)]);
  a.colons = 3;
  let k = ch.pick(n + 1);
  for _ in 0..k {
    a.clobbers.push(CL[ch.pick(CL.len())].into());
  }
  match ch.pick(4) {
    0 => {},
    1 => a.outs.push(("=r".into(), id("x"))),
    2 => a.ins.push(("r".into(), id("x"))),
    _ => {
      a.outs.push(("=r".into(), id("x")));
      a.ins.push(("0".into(), id("y")));
    },
  }
  let u = USES[ch.pick(3)];
  case(ch, &[S::Asm(a)], u, true)
}

fn c19_spelling(ch: &mut Ch) -> V {
  let kw = ["asm", "__asm", "__asm__"][ch.pick(3)];
  let q: &[&str] = [&[][..], &["volatile"], &["__volatile__"], &["inline"], &["volatile", "inline"], &["inline", "volatile"], &["__volatile"], &["__inline__"]][ch.pick(8)];
  let template: &[&str] = [&["mov %1, %0"][..], &["a\n", "b %0\n\t", "c"], &["", "a"], &["%", "0"], &["a %1", "\n"], &["x {", "%0}", ""]][ch.pick(6)];
  let mut a = plain("");
  a.words = vec![kw];
  a.words.extend(q);
  a.template = template.iter().map(|s| s.to_string()).collect();
  a.colons = ch.pick(4);
  if a.colons > 0 && ch.flag() {
    a.outs = vec![("=r".into(), id("x"))];
  }
  if a.colons > 1 && ch.flag() {
    a.ins = vec![("r".into(), id("y"))];
  }
  if a.colons > 2 && ch.flag() {
    a.clobbers = vec!["memory".into()];
  }
  let last = ch.flag();
  let u = USES[ch.pick(3)];
  case(ch, &[S::Asm(a)], u, last)
}

fn c19_programs(ch: &mut Ch, n: usize) -> V {
  fn atom(ch: &mut Ch) -> S {
    let asm = |t: &str, o: &[(&str, &str)], i: &[(&str, &str)], c: &[&str]| {
      let mut a = plain(t);
      a.colons = 3;
      let l = |o: &[(&str, &str)]| o.iter().map(|(c, e)| (c.to_string(), id(e))).collect();
      a.outs = l(o);
      a.ins = l(i);
      a.clobbers = c.iter().map(|s| s.to_string()).collect();
      S::Asm(a)
    };
    match ch.pick(8) {
      0 => asm("in %0", &[("=r", "x")], &[], &[]),
      1 => asm("out %0", &[], &[("r", "x")], &["memory"]),
      2 => asm("op %0, %2", &[("=r", "x")], &[("0", "y"), ("r", "x")], &["cc"]),
      3 => asm("swap %0, %1", &[("+r", "x"), ("+r", "y")], &[], &[]),
      4 => S::Asm(plain("nop")),
      5 => S::Expr(E::Asg("=", bx(id("x")), bx(id("y")))),
      6 => S::Expr(E::Call("f".into(), vec![id("x")])),
      _ => S::Expr(E::Post("++", bx(id("y")))),
    }
  }
  fn seq(ch: &mut Ch, n: usize) -> Vec<S> {
    let mut v = vec![];
    let mut n = n;
    while n > 0 {
      match ch.pick(if n > 1 { 4 } else { 1 }) {
        0 => {
          v.push(atom(ch));
          n -= 1;
        },
        1 => {
          let b = atom(ch);
          v.push(S::If(id("y"), Box::new(b), None));
          n -= 2;
        },
        2 => {
          let b = atom(ch);
          v.push(S::Do(Box::new(S::Block(vec![b])), id("y")));
          n -= 2;
        },
        _ => {
          let b = atom(ch);
          v.push(S::Block(vec![S::Decl(INT, "t".into(), id("y")), b]));
          n -= 2;
        },
      }
    }
    v
  }
  let k = 1 + ch.pick(n);
  let prog = seq(ch, k);
  if !prog.iter().any(|s| format!("{s:?}").contains("Asm(")) {
    return V::Skip("no assembly");
  }
  let u = USES[ch.pick(3)];
  case(ch, &prog, u, true)
}

pub fn c19(t: Tier) -> Vec<Space> {
  let _ = M::default();
  vec![
    Space { name: "template", bounds: format!("every template of up to {} of {} chunks (operand numbers with and without modifiers, %%, registers, braces, brackets, $, white space, new lines, directives, quotes), basic and extended, with up to three operands", t.q(3, 4), t.q(CHUNKS.len(), 24)), f: |ch| c19_template(ch, ch.tier.q(3, 4), ch.tier.q(CHUNKS.len(), 24)) },
    Space { name: "text", bounds: format!("every template of up to {} of the first {} chunks", t.q(5, 6), t.q(8, 10)), f: |ch| c19_template(ch, ch.tier.q(5, 6), ch.tier.q(8, 10)) },
    Space { name: "operands", bounds: format!("every choice of up to 2 outputs of {} constraints and up to {} inputs of {} constraints, tied to the output's variable or another value, with every operand in the template in three orders, four sets of clobbers", OUTS.len(), t.q(2, 3), t.q(INS.len(), 6)), f: |ch| c19_operands(ch, 2, ch.tier.q(2, 3), OUTS.len(), ch.tier.q(INS.len(), 6)) },
    Space { name: "tied", bounds: format!("every choice of up to 3 outputs and up to {} inputs, of 2 and 3 constraints", t.q(3, 4)), f: |ch| c19_operands(ch, 3, ch.tier.q(3, 4), 2, 3) },
    Space { name: "exprs", bounds: format!("up to {} operands and a tied one of 20 expressions each (11 of them places), in 4 uses", t.q(2, 3)), f: |ch| c19_exprs(ch, ch.tier.q(2, 3)) },
    Space { name: "clobbers", bounds: format!("every sequence of up to {} clobbers of 6, five templates, four sets of operands", t.q(3, 5)), f: |ch| c19_clobbers(ch, ch.tier.q(3, 5)) },
    Space { name: "spelling", bounds: "every keyword, qualifier, number of colons and division of the template into literals".into(), f: c19_spelling },
    Space { name: "programs", bounds: format!("every body of up to {} statement nodes of 5 assembler statements, assignments and calls, in blocks, if and do-while", t.q(3, 4)), f: |ch| c19_programs(ch, ch.tier.q(3, 4)) },
  ]
}
