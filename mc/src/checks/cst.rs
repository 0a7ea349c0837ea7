//! C10, C11: constant expressions, evaluated with C's types on one side and with Rust's on the other.

use crate::engine::*;
use crate::gen::{self, Cx, Gen};
use crate::num::{self, fits, wrap, Val};

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C11" => vec![
      "LP64 with 32-bit int and signed char; `>>` of negative values is arithmetic (as GCC defines it)",
      "only expressions whose C value equals the mathematical value at every node apart from explicit casts (no wraparound, no conversion that changes a value) and without `&&`, `||` and `,`",
      "the generated constant is evaluated with Rust's types; integer literals whose type nothing determines have the type of the constant the user declares, i.e. any range",
      "code which rustc rejects has no value; that may happen only if casts of different types are mixed or a value does not fit the type of one of the casts (a character literal is cast to its character type)",
      "operands which C does not evaluate have a value as well",
    ],
    "C10" => vec![
      "FLT_EVAL_METHOD 0; `long double` is a Rust `f64` (documented by the type mapping)",
      "hexadecimal floating-point literals are not supported by the crate (reported as invalid tokens)",
      "code which rustc rejects has no value; that may happen only if casts are mixed with other types",
    ],
    _ => vec![],
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CT {
  Bool,
  Char,
  SChar,
  UChar,
  Short,
  UShort,
  Int,
  UInt,
  Long,
  ULong,
  LLong,
  ULLong,
  Float,
  Double,
  LDouble,
}
use CT::*;

impl CT {
  pub fn int(self) -> Option<(bool, u32)> {
    Some(match self {
      Bool => (false, 1),
      Char | SChar => (true, 8),
      UChar => (false, 8),
      Short => (true, 16),
      UShort => (false, 16),
      Int => (true, 32),
      UInt => (false, 32),
      Long | LLong => (true, 64),
      ULong | ULLong => (false, 64),
      _ => return None,
    })
  }
  fn rank(self) -> u32 {
    match self {
      Bool => 0,
      Char | SChar | UChar => 1,
      Short | UShort => 2,
      Int | UInt => 3,
      Long | ULong => 4,
      LLong | ULLong => 5,
      _ => 6,
    }
  }
  fn spell(self) -> &'static [&'static str] {
    match self {
      Bool => &["bool"],
      Char => &["char"],
      SChar => &["signed", "char"],
      UChar => &["unsigned", "char"],
      Short => &["short"],
      UShort => &["unsigned", "short"],
      Int => &["int"],
      UInt => &["unsigned", "int"],
      Long => &["long"],
      ULong => &["unsigned", "long"],
      LLong => &["long", "long"],
      ULLong => &["unsigned", "long", "long"],
      Float => &["float"],
      Double => &["double"],
      LDouble => &["long", "double"],
    }
  }
}
pub const ALL: &[CT] = &[Bool, Char, SChar, UChar, Short, UShort, Int, UInt, Long, ULong, LLong, ULLong];

#[derive(Clone, Copy, Debug)]
pub enum CV {
  I(i128),
  F(f32),
  D(f64),
}

#[derive(Clone, Debug)]
pub enum E {
  /// Text, value, type.
  Lit(String, CV, CT),
  /// A character literal.
  Chr(String, i128, CT),
  Un(&'static str, Box<E>),
  Bin(&'static str, Box<E>, Box<E>),
  Cast(CT, Box<E>),
  Tern(Box<E>, Box<E>, Box<E>),
  SizeOf(CT),
  /// Redundant parentheses.
  Par(Box<E>),
}

fn prec(op: &str) -> u8 {
  match op {
    "*" | "/" | "%" => 10,
    "+" | "-" => 9,
    "<<" | ">>" => 8,
    "<" | "<=" | ">" | ">=" => 7,
    "==" | "!=" => 6,
    "&" => 5,
    "^" => 4,
    "|" => 3,
    _ => 2,
  }
}

impl E {
  fn level(&self) -> u8 {
    match self {
      E::Lit(..) | E::Chr(..) | E::Par(_) => 13,
      E::Un(..) | E::SizeOf(_) => 12,
      E::Cast(..) => 11,
      E::Bin(op, ..) => prec(op),
      E::Tern(..) => 1,
    }
  }
  /// The tokens, with the parentheses C's grammar needs.
  fn toks(&self, min: u8, o: &mut Vec<String>) {
    let par = self.level() < min;
    if par {
      o.push("(".into());
    }
    match self {
      E::Lit(s, ..) | E::Chr(s, ..) => o.push(s.clone()),
      E::Un(op, e) => {
        o.push(op.to_string());
        e.toks(11, o);
      },
      E::Bin(op, a, b) => {
        a.toks(prec(op), o);
        o.push(op.to_string());
        b.toks(prec(op) + 1, o);
      },
      E::Cast(t, e) => {
        o.push("(".into());
        o.extend(t.spell().iter().map(|s| s.to_string()));
        o.push(")".into());
        e.toks(11, o);
      },
      E::Tern(c, a, b) => {
        c.toks(2, o);
        o.push("?".into());
        a.toks(1, o);
        o.push(":".into());
        b.toks(1, o);
      },
      E::SizeOf(t) => {
        o.push("sizeof".into());
        o.push("(".into());
        o.extend(t.spell().iter().map(|s| s.to_string()));
        o.push(")".into());
      },
      E::Par(e) => {
        o.push("(".into());
        e.toks(0, o);
        o.push(")".into());
      },
    }
    if par {
      o.push(")".into());
    }
  }
  fn children(&self) -> Vec<&E> {
    match self {
      E::Un(_, e) | E::Cast(_, e) | E::Par(e) => vec![e],
      E::Bin(_, a, b) => vec![a, b],
      E::Tern(c, a, b) => vec![c, a, b],
      _ => vec![],
    }
  }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Out {
  /// No value in C (division by zero, negative shift count).
  Undefined,
  /// Outside of the property's domain.
  Domain(&'static str),
}
type R<X> = Result<X, Out>;

fn ftype(t: CT) -> bool {
  t.int().is_none()
}
/// Conversion to type `t`. `explicit`: a cast, which may change the value.
fn conv(v: CV, t: CT, explicit: bool) -> R<CV> {
  Ok(match (v, t.int()) {
    (v, _) if t == Bool => CV::I(!zero(v) as i128),
    (CV::I(v), Some((s, b))) => {
      if fits(v, s, b) {
        CV::I(v)
      } else if explicit {
        CV::I(wrap(v, s, b))
      } else {
        return Err(Out::Domain("an implicit conversion changes the value"));
      }
    },
    (CV::I(v), None) if t == Float => CV::F(v as f32),
    (CV::I(v), None) => CV::D(v as f64),
    (CV::F(_) | CV::D(_), Some((s, b))) => {
      let f = match v {
        CV::F(f) => f as f64,
        CV::D(f) => f,
        _ => 0.0,
      };
      if !f.is_finite() || f.abs() > 1e30 || !fits(f.trunc() as i128, s, b) {
        return Err(Out::Domain("a floating-point value does not fit the integer type"));
      }
      CV::I(f.trunc() as i128)
    },
    (CV::F(f), None) if t == Float => CV::F(f),
    (CV::D(f), None) if t == Float => CV::F(f as f32),
    (CV::F(f), None) => CV::D(f as f64),
    (CV::D(f), None) => CV::D(f),
  })
}
fn promote(t: CT) -> CT {
  if t.rank() < 3 { Int } else { t }
}
fn common(a: CT, b: CT) -> CT {
  for t in [LDouble, Double, Float] {
    if a == t || b == t {
      return t;
    }
  }
  let (a, b) = (promote(a), promote(b));
  let (sa, wa) = a.int().unwrap();
  let (sb, wb) = b.int().unwrap();
  if sa == sb {
    return if a.rank() >= b.rank() { a } else { b };
  }
  let (u, s, wu, ws) = if sa { (b, a, wb, wa) } else { (a, b, wa, wb) };
  if u.rank() >= s.rank() {
    u
  } else if ws > wu {
    s
  } else {
    match s {
      Long => ULong,
      _ => ULLong,
    }
  }
}
fn zero(v: CV) -> bool {
  match v {
    CV::I(v) => v == 0,
    CV::F(f) => f == 0.0,
    CV::D(f) => f == 0.0,
  }
}

/// Evaluate as C does. `vals`: integer values of all nodes.
fn eval(e: &E, steps: &mut u64, vals: &mut Vec<i128>) -> R<(CV, CT)> {
  *steps += 1;
  let r = match e {
    E::Lit(_, v, t) => (*v, *t),
    E::Chr(_, v, t) => (CV::I(*v), *t),
    E::Par(e) => eval(e, steps, vals)?,
    E::SizeOf(t) => (
      CV::I(match t {
        Float => 4,
        Double => 8,
        LDouble => return Err(Out::Domain("size of long double")),
        Bool => 1,
        t => t.int().unwrap().1 as i128 / 8,
      }),
      ULong,
    ),
    E::Cast(t, e) => {
      let (v, _) = eval(e, steps, vals)?;
      (conv(v, *t, true)?, *t)
    },
    E::Un(op, e) => {
      let (v, t) = eval(e, steps, vals)?;
      if *op == "!" {
        (CV::I(zero(v) as i128), Int)
      } else if ftype(t) {
        match (*op, v) {
          ("+", v) => (v, t),
          ("-", CV::F(f)) => (CV::F(-f), t),
          ("-", CV::D(f)) => (CV::D(-f), t),
          _ => return Err(Out::Domain("not a valid C expression")),
        }
      } else {
        let t = promote(t);
        let CV::I(v) = v else { unreachable!() };
        let w = match *op {
          "+" => v,
          "-" => -v,
          _ => !v,
        };
        let (s, b) = t.int().unwrap();
        if !fits(w, s, b) {
          return Err(Out::Domain("a value does not fit its type"));
        }
        (CV::I(w), t)
      }
    },
    E::Tern(c, a, b) => {
      let (c, _) = eval(c, steps, vals)?;
      let (a, ta) = eval(a, steps, vals)?;
      let (b, tb) = eval(b, steps, vals)?;
      let t = common(ta, tb);
      (conv(if zero(c) { b } else { a }, t, false)?, t)
    },
    E::Bin(op, a, b) => {
      let (a, ta) = eval(a, steps, vals)?;
      let (b, tb) = eval(b, steps, vals)?;
      let t = common(ta, tb);
      if matches!(*op, "<<" | ">>") {
        let (CV::I(a), CV::I(b)) = (a, b) else { return Err(Out::Domain("not a valid C expression")) };
        let t = promote(ta);
        let (s, w) = t.int().unwrap();
        if b < 0 {
          return Err(Out::Undefined);
        }
        if b >= w as i128 {
          return Err(Out::Domain("shift by the width or more"));
        }
        if *op == ">>" {
          (CV::I(a >> b), t)
        } else {
          if a < 0 {
            return Err(Out::Domain("left shift of a negative value"));
          }
          let v = a << b;
          if a.leading_zeros() as i128 <= b || !fits(v, s, w) {
            return Err(Out::Domain("a value does not fit its type"));
          }
          (CV::I(v), t)
        }
      } else {
        let (a, b) = (conv(a, t, false)?, conv(b, t, false)?);
        let cmp = matches!(*op, "<" | "<=" | ">" | ">=" | "==" | "!=");
        if cmp {
          use std::cmp::Ordering::*;
          let o = match (a, b) {
            (CV::I(a), CV::I(b)) => Some(a.cmp(&b)),
            (CV::F(a), CV::F(b)) => a.partial_cmp(&b),
            (CV::D(a), CV::D(b)) => a.partial_cmp(&b),
            _ => unreachable!(),
          };
          let r = match *op {
            "==" => o == Some(Equal),
            "!=" => o != Some(Equal),
            "<" => o == Some(Less),
            "<=" => matches!(o, Some(Less | Equal)),
            ">" => o == Some(Greater),
            _ => matches!(o, Some(Greater | Equal)),
          };
          (CV::I(r as i128), Int)
        } else {
          match (a, b) {
            (CV::I(a), CV::I(b)) => {
              let v = match *op {
                "+" => a + b,
                "-" => a - b,
                "*" => match a.checked_mul(b) {
                  Some(v) => v,
                  None => return Err(Out::Domain("a value does not fit its type")),
                },
                "/" | "%" if b == 0 => return Err(Out::Undefined),
                "/" => a / b,
                "%" => a % b,
                "&" => a & b,
                "|" => a | b,
                _ => a ^ b,
              };
              let (s, w) = t.int().unwrap();
              if !fits(v, s, w) || matches!(*op, "%") && !fits(a / b, s, w) {
                return Err(Out::Domain("a value does not fit its type"));
              }
              (CV::I(v), t)
            },
            (CV::F(a), CV::F(b)) => (
              CV::F(match *op {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "/" => a / b,
                _ => return Err(Out::Domain("not a valid C expression")),
              }),
              t,
            ),
            (CV::D(a), CV::D(b)) => (
              CV::D(match *op {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "/" => a / b,
                _ => return Err(Out::Domain("not a valid C expression")),
              }),
              t,
            ),
            _ => unreachable!(),
          }
        }
      }
    },
  };
  if let CV::I(v) = r.0 {
    vals.push(v);
  }
  Ok(r)
}

/// Rust-visible type of the operands: `Err` if operands of different types meet.
#[derive(Clone, Copy, PartialEq, Debug)]
enum RT {
  /// Integer literal of no particular type.
  Any,
  Bool,
  C(CT),
  /// `wchar_t`, a type the context names.
  Wide,
}
fn same(a: CT, b: CT) -> bool {
  // Types which are the same type in Rust on LP64.
  let k = |t: CT| match t {
    Bool => "bool",
    Char | SChar => "i8",
    UChar => "u8",
    Short => "i16",
    UShort => "u16",
    Int => "i32",
    UInt => "u32",
    Long | LLong => "i64",
    ULong | ULLong => "u64",
    Float => "f32",
    Double | LDouble => "f64",
  };
  k(a) == k(b)
}
fn rty(e: &E) -> Result<RT, ()> {
  let arith = |t: RT| match t {
    RT::Bool => RT::C(Int),
    RT::C(t) if t.rank() < 3 => RT::C(Int),
    t => t,
  };
  let join = |a: RT, b: RT| match (a, b) {
    (RT::Any, RT::Bool) | (RT::Bool, RT::Any) => Err(()),
    (RT::Any, t) | (t, RT::Any) => Ok(t),
    (RT::C(a), RT::C(b)) if same(a, b) => Ok(RT::C(a)),
    (a, b) if a == b => Ok(a),
    _ => Err(()),
  };
  Ok(match e {
    E::Lit(_, CV::I(_), _) => RT::Any,
    E::Lit(_, _, t) => RT::C(*t),
    E::Chr(s, ..) if s.starts_with('L') => RT::Wide,
    E::Chr(_, _, t) => RT::C(*t),
    E::Par(e) => rty(e)?,
    E::SizeOf(_) => RT::C(ULong),
    E::Cast(Bool, e) => {
      rty(e)?;
      RT::Bool
    },
    E::Cast(t, e) => {
      if matches!(rty(e)?, RT::Bool) && ftype(*t) {
        return Err(());
      }
      RT::C(*t)
    },
    E::Un(op, e) => {
      let t = rty(e)?;
      match *op {
        "!" => match &**e {
          // Negated literals are integers.
          _ if lit(e) => RT::Any,
          _ => RT::Bool,
        },
        "+" => t,
        "-" => match arith(t) {
          RT::C(t) if matches!(t.int(), Some((false, _))) => return Err(()),
          t => t,
        },
        _ => arith(t),
      }
    },
    // The maximum of an unsigned type is calculated like that.
    E::Bin("*" | "+", a, b) if of_max(a, b).is_some() => RT::C(of_max(a, b).unwrap()),
    E::Bin(op, a, b) => {
      let (a, b) = (rty(a)?, rty(b)?);
      match *op {
        "<<" | ">>" => arith(a),
        "==" | "!=" | "<" | "<=" | ">" | ">=" => {
          let int = |t: RT| if t == RT::Bool { RT::C(Int) } else { t };
          if a == RT::Bool && b == RT::Bool {
            return Ok(RT::Bool);
          }
          join(int(a), int(b))?;
          RT::Bool
        },
        "+" | "-" | "*" | "/" | "%" => join(arith(a), arith(b))?,
        _ => {
          if a == RT::Bool && b == RT::Bool {
            RT::Bool
          } else {
            join(arith(a), arith(b))?
          }
        },
      }
    },
    E::Tern(c, a, b) => {
      rty(c)?;
      join(rty(a)?, rty(b)?)?
    },
  })
}
fn of_max(a: &E, b: &E) -> Option<CT> {
  fn name(e: &E) -> Option<CT> {
    match e {
      E::Par(e) => name(e),
      E::Chr(n, _, t) if n.starts_with("__") => Some(match t {
        SChar => UChar,
        Short => UShort,
        Int => UInt,
        Long => ULong,
        _ => ULLong,
      }),
      _ => None,
    }
  }
  let nat = |e: &E| lit(e) && matches!(eval(e, &mut 0, &mut vec![]), Ok((CV::I(v), _)) if v >= 0);
  if nat(b) { name(a) } else if nat(a) { name(b) } else { None }
}
/// Folded to a literal?
fn lit(e: &E) -> bool {
  match e {
    E::Lit(..) => true,
    E::Par(e) => lit(e),
    E::Un("~", _) => false,
    E::Un(_, e) => lit(e),
    E::Bin(op, a, b) => !matches!(*op, "==" | "!=" | "<" | "<=" | ">" | ">=") && lit(a) && lit(b),
    _ => false,
  }
}
fn casts(e: &E, o: &mut Vec<CT>) {
  match e {
    E::Cast(Bool, _) => o.push(Int),
    E::Cast(t, _) | E::Chr(_, _, t) => o.push(*t),
    E::SizeOf(_) => o.push(ULong),
    // A comparison is converted to `int` for calculating with it.
    E::Un("!", _) | E::Bin("==" | "!=" | "<" | "<=" | ">" | ">=", ..) => o.push(Int),
    _ => (),
  }
  for c in e.children() {
    casts(c, o);
  }
}
fn has(e: &E, f: &dyn Fn(&E) -> bool) -> bool {
  f(e) || e.children().into_iter().any(|c| has(c, f))
}

/// Generate the expression, as the value of a macro or (`func`) as the body of a macro without parameters.
fn generated(toks: &[&str], func: bool) -> Result<Result<(String, Option<String>), String>, String> {
  guard(|| {
    let mut cx = Cx::default();
    cx.types.push(("wchar_t".into(), "i32".into()));
    if func {
      match gen::func(&cx, "M", &[], toks) {
        Ok(Gen::Func { sig, body }) => {
          let ty = match &sig.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, t) => quote::ToTokens::to_token_stream(t).to_string(),
          };
          Ok((format!("{{ {body} }}"), Some(ty)))
        },
        Ok(Gen::Macro { body, .. }) => Ok((format!("{{ {body} }}"), None)),
        Ok(Gen::Err(s, e)) => Err(format!("{s} error: {e}")),
        Ok(g) => Err(format!("{g:?}")),
        Err(e) => Err(e),
      }
    } else {
      match gen::var(&cx, "M", toks) {
        Gen::Var { expr, ty } => Ok((expr.to_string(), ty.map(|t| t.to_string()))),
        Gen::Err(s, e) => Err(format!("{s} error: {e}")),
        g => Err(format!("{g:?}")),
      }
    }
  })
}

fn show(v: CV) -> String {
  match v {
    CV::I(v) => format!("{v}"),
    CV::F(f) => format!("{f:?}f ({:08x})", f.to_bits()),
    CV::D(f) => format!("{f:?} ({:016x})", f.to_bits()),
  }
}

fn check(ch: &mut Ch, e: &E, func: bool, float: bool) -> V {
  let mut toks = vec![];
  e.toks(0, &mut toks);
  let text = toks.join(" ");
  let mut vals = vec![];
  let mut steps = 0;
  let want = eval(e, &mut steps, &mut vals);
  ch.model_steps += steps;
  // Decimal: a long; hexadecimal: an unsigned int. The parsed literal has no base.
  let ambiguous = |e: &E| match e {
    E::Un("~", e) if lit(e) => matches!(eval(e, &mut 0, &mut vec![]), Ok((CV::I(v), _)) if v > i32::MAX as i128 && v <= u32::MAX as i128),
    _ => false,
  };
  let mut ts = vec![];
  casts(e, &mut ts);
  // The usual arithmetic conversions give a type which is not the type of the operand with a cast.
  let mixed = |e: &E| match rty(e) {
    Ok(RT::C(t)) => matches!(eval(e, &mut 0, &mut vec![]), Ok((_, u)) if !same(t, u)),
    _ => false,
  };
  if !ts.is_empty() && !float && has(e, &mixed) {
    return V::Skip("a cast and a literal of a wider type");
  }
  if !ts.is_empty() && has(e, &ambiguous) {
    return V::Skip("complement of a literal whose type depends on its base, with casts");
  }
  if let Err(Out::Domain(s)) = want {
    return V::Skip(s);
  }
  ch.note(format!("{}{text}", if func { "M() " } else { "" }));
  let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
  let (expr, ty) = match generated(&toks, func) {
    Err(p) => return V::Fail(p),
    Ok(Err(e)) => match want {
      Err(_) => return V::Ok(h("error")),
      Ok((v, t)) => return V::Fail(format!("C: {} ({t:?})\nRust: {e}", show(v))),
    },
    Ok(Ok(x)) => x,
  };
  let gen = format!("{expr}{}", ty.as_ref().map(|t| format!("  : {t}")).unwrap_or_default());
  let got = num::value(&expr, ty.as_deref());
  let got = match (got, want) {
    (Err(num::Stop::Unknown(s)), _) => return V::Fail(format!("the generated code is not a constant expression ({s}): {gen}")),
    (Err(num::Stop::Reject(_)), Err(_)) => return V::Ok(h("rejected")),
    (Ok(v), Err(_)) => return V::Fail(format!("C: no value\nRust: {v:?}\ngenerated: {gen}")),
    (Err(num::Stop::Reject(s)), Ok((v, t))) => {
      let mut ts = vec![];
      casts(e, &mut ts);
      let narrow = ts.iter().filter_map(|t| t.int()).any(|(s, b)| vals.iter().any(|v| !fits(*v, s, b)));
      let below_cast = has(e, &|e| matches!(e, E::Cast(_, e) if !lit(e))) && vals.iter().any(|v| !fits(*v, true, 32));
      if rty(e).is_err() {
        return V::Skip("rejected by rustc: operands of different types");
      }
      if narrow || below_cast {
        return V::Skip("rejected by rustc: a value does not fit the type of a cast");
      }
      if float && has(e, &|e| matches!(e, E::Un(_, e) if !lit(e) && rty(e) == Ok(RT::Any))) {
        return V::Skip("rejected by rustc: an operator on the complement of an integer next to a floating-point operand");
      }
      return V::Fail(format!("C: {} ({t:?})\nRust: rejected by rustc: {s}\ngenerated: {gen}", show(v)));
    },
    (Ok(g), Ok((v, t))) => (g, v, t),
  };
  let (g, v, t) = got;
  let ok = match (g, v) {
    (Val::Bool(b), CV::I(v)) => b as i128 == v,
    (Val::Int(g, _), CV::I(v)) => g == v,
    (Val::F32(g), CV::F(v)) => g.to_bits() == v.to_bits() || g.is_nan() && v.is_nan(),
    (Val::F64(g), CV::D(v)) => g.to_bits() == v.to_bits() || g.is_nan() && v.is_nan(),
    _ => false,
  };
  // The declared type of a floating-point constant.
  let ok_ty = !float
    || match t {
      Float => ty.as_deref() == Some("f32"),
      Double | LDouble => ty.as_deref() == Some("f64"),
      _ => true,
    };
  if !ok || !ok_ty {
    return V::Fail(format!("C:    {} ({t:?})\nRust: {g:?}\ngenerated: {gen}", show(v)));
  }
  V::Ok(h(&format!("{g:?}")))
}

fn num_lit(text: &str) -> E {
  let (v, suf) = crate::reflit::int(text).unwrap();
  use crate::reflit::ISuf::*;
  let v = v as i128;
  let dec = !text.starts_with('0') || text == "0";
  let cand: &[CT] = match suf {
    None if dec => &[Int, Long],
    None => &[Int, UInt, Long, ULong],
    U => &[UInt, ULong],
    L if dec => &[Long],
    L => &[Long, ULong],
    UL => &[ULong],
    LL if dec => &[LLong],
    LL => &[LLong, ULLong],
    ULL => &[ULLong],
    Z => &[Long],
    UZ => &[ULong],
  };
  let t = cand.iter().copied().find(|t| {
    let (s, b) = t.int().unwrap();
    fits(v, s, b)
  });
  E::Lit(text.into(), CV::I(v), t.unwrap_or(ULLong))
}
fn chr(i: usize) -> E {
  let (s, v, t): (&str, i128, CT) = [
    ("'a'", 97, Char),
    ("'\\0'", 0, Char),
    ("'\\n'", 10, Char),
    ("'\\x7f'", 127, Char),
    ("'\\377'", -1, Char),
    ("'\\x80'", -128, Char),
    ("u8'z'", 122, UChar),
    ("u'\\u20ac'", 0x20ac, UShort),
    ("u'\\xd800'", 0xd800, UShort),
    ("U'\\U0001f600'", 0x1f600, UInt),
    ("U'\\xffffffff'", 0xffffffff, UInt),
    ("L'b'", 98, Int),
    ("L'\\u20ac'", 0x20ac, Int),
  ][i];
  E::Chr(s.into(), v, t)
}
const NCHR: usize = 13;

const NUMS: &[&str] = &[
  "0", "1", "2", "3", "7", "10", "31", "63", "127", "128", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
  "9223372036854775807", "0xFFFFFFFF", "0x7fffffffffffffff", "0xffffffffffffffff", "010", "0b101", "0u", "1u", "4294967295u", "5L", "6UL", "7ll", "18446744073709551615ULL",
];
const NUMS2: &[&str] = &["0", "1", "2", "3", "10", "255", "65536", "2147483647", "0xFFFFFFFF", "3u", "5L", "6ULL"];
const NUMS3: &[&str] = &["0", "1", "3", "10", "0xFF", "4u", "5L"];
const BIN: &[&str] = &["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|"];
const UN: &[&str] = &["-", "+", "~", "!"];

fn b(e: E) -> Box<E> {
  Box::new(e)
}
fn atom(ch: &mut Ch, nums: &[&str], chrs: usize) -> E {
  let i = ch.pick(nums.len() + chrs);
  if i < nums.len() { num_lit(nums[i]) } else { chr(i - nums.len()) }
}
fn un(ch: &mut Ch, max: usize, e: E) -> E {
  let n = ch.pick(max + 1);
  (0..n).fold(e, |e, _| E::Un(UN[ch.pick(UN.len())], b(e)))
}
/// Up to `max` casts and unary operators.
fn pre(ch: &mut Ch, max: usize, casts: &[CT], e: E) -> E {
  let n = ch.pick(max + 1);
  (0..n).fold(e, |e, _| {
    let i = ch.pick(UN.len() + casts.len());
    if i < UN.len() { E::Un(UN[i], b(e)) } else { E::Cast(casts[i - UN.len()], b(e)) }
  })
}

pub fn c11(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "boundaries", bounds: format!("2^k - 1, 2^k and 2^k + 1 for every k in 0..=64, in decimal and hexadecimal, with every chain of up to {} operators - ~ ! or casts to 12 types{}", t.q(2, 3), t.q("", " (6 types in chains of three)")), f: c11_boundaries },
    Space { name: "maxima", bounds: format!("the five predefined maxima with two further operands, integers with each suffix, and {} operators", t.q("the arithmetic", "all binary")), f: c11_maxima },
    Space { name: "predefined", bounds: "the five predefined maxima, each with up to two casts to 12 types or operators, alone (with its type) and in every binary operator and conditional with itself, an integer or a cast, on either side".into(), f: c11_predefined },
    Space { name: "literal_operators", bounds: format!("every pair of {} integers with 5 suffixes, negated or not, with the ten operators of the literal type itself", LI.len()), f: c11_ops },
    Space { name: "sizeof", bounds: "sizeof of 14 types, alone, with every operator and literal, and cast".into(), f: c11_sizeof },
    Space { name: "undefined", bounds: "division and remainder by zero and negative shift counts, the operand spelled in 8 ways, below up to 2 enclosing operators, casts or conditionals".into(), f: c11_undefined },
    Space { name: "unary", bounds: format!("every chain of up to {} operators - + ~ ! and casts to 12 types, over {} integer and {NCHR} character literals, in a variable-like macro, without casts and characters also in a function-like one", t.q(2, 4), NUMS.len()), f: c11_unary },
    Space { name: "pairs", bounds: format!("every pair of the {} literals, each with up to {} unary operators, with each of the 16 operators", NUMS.len() + NCHR, t.q(1, 2)), f: c11_pairs },
    Space { name: "triples", bounds: format!("every two operators over three of {} literals in both groupings, up to {} unary operator on the inner expression", t.q(NUMS2.len(), NUMS2.len() + 3), t.q(0, 1)), f: c11_triples },
    Space { name: "quads", bounds: format!("every three operators of {} over four of {} literals in all 5 groupings", t.q(8, 16), t.q(3, 4)), f: c11_quads },
    Space { name: "casts", bounds: format!("every operator between operands with up to {} casts to 12 types or unary operators, and a cast or unary operator on the result, over {} literals", t.q(1, 2), t.q(5, 4)), f: c11_casts },
    Space { name: "same_cast", bounds: format!("every two operators over three of {} literals, all cast to the same of {} types, with an optional cast to any of them of the result", t.q(5, 6), t.q(5, 8)), f: c11_same },
    Space { name: "conditional", bounds: format!("conditionals whose condition is a comparison, literal or operation, with branches of that shape, used as operand and nested {}", t.q("once", "twice")), f: c11_tern },
  ]
}

fn c11_unary(ch: &mut Ch) -> V {
  let func = ch.flag();
  let e = atom(ch, NUMS, NCHR);
  let n = ch.tier.q(2, 4);
  let types: &[CT] = if n > 2 { &[Bool, Char, UChar, UShort, Int, ULong] } else { ALL };
  let n = if n == 4 { 3 } else { n };
  let e = pre(ch, n, types, e);
  let e = if ch.flag() { E::Par(b(e)) } else { e };
  if func && has(&e, &|e| matches!(e, E::Cast(..) | E::Chr(..))) {
    return V::Skip("not a constant: a function with casts");
  }
  check(ch, &e, func, false)
}
/// `__INT_MAX__` and the like.
fn c11_predefined(ch: &mut Ch) -> V {
  let all: [(&str, i128, CT, &str); 5] = [
    ("__SCHAR_MAX__", 127, SChar, "c_schar"),
    ("__SHRT_MAX__", 32767, Short, "c_short"),
    ("__INT_MAX__", i32::MAX as i128, Int, "c_int"),
    ("__LONG_MAX__", i64::MAX as i128, Long, "c_long"),
    ("__LONG_LONG_MAX__", i64::MAX as i128, LLong, "c_longlong"),
  ];
  let (name, v, t, ty) = all[ch.pick(5)];
  // A name of that type.
  let m = || E::Chr(name.into(), v, t);
  let func = ch.flag();
  let max = ch.tier.q(2, 3);
  let e = pre(ch, max, ALL, m());
  if matches!(e, E::Chr(..)) {
    ch.note(format!("{name}{}", if func { " in a function" } else { "" }));
    match generated(&[name], func) {
      Ok(Ok((_, Some(g)))) if g == ty => (),
      g => return V::Fail(format!("expected the type {ty}: {g:?}")),
    }
  }
  let other = |ch: &mut Ch| match ch.pick(6) {
    0 => m(),
    1 => num_lit("1"),
    2 => num_lit("2"),
    3 => E::Cast(t, b(num_lit("3"))),
    4 => E::Un("-", b(m())),
    _ => E::Cast(Int, b(m())),
  };
  let i = ch.pick(1 + 2 * BIN.len() + 2);
  let e = match i {
    0 => e,
    i if i <= BIN.len() => E::Bin(BIN[i - 1], b(e), b(other(ch))),
    i if i <= 2 * BIN.len() => E::Bin(BIN[i - 1 - BIN.len()], b(other(ch)), b(e)),
    i if i == 2 * BIN.len() + 1 => E::Tern(b(e), b(other(ch)), b(m())),
    _ => E::Tern(b(other(ch)), b(e), b(m())),
  };
  if func && !matches!(e, E::Chr(..)) {
    return V::Skip("not a constant: a function with casts");
  }
  check(ch, &e, func, false)
}
/// `__LONG_MAX__ * 2UL + 1UL` and the like: how `limits.h` writes the maxima of the unsigned types.
fn c11_maxima(ch: &mut Ch) -> V {
  let (name, v, t) = *ch.of(&[
    &("__SCHAR_MAX__", 127, SChar),
    &("__SHRT_MAX__", 32767, Short),
    &("__INT_MAX__", i32::MAX as i128, Int),
    &("__LONG_MAX__", i64::MAX as i128, Long),
    &("__LONG_LONG_MAX__", i64::MAX as i128, LLong),
  ]);
  let m = E::Chr(name.into(), v, t);
  let lit = |ch: &mut Ch| num_lit(&format!("{}{}", ch.of(&["1", "2", "3"]), ch.of(&["", "u", "L", "UL", "ll", "ULL"])));
  let ops = ch.tier.q(&["+", "-", "*", "/", "%"] as &[&str], BIN);
  let op = |ch: &mut Ch| ops[ch.pick(ops.len())];
  let e = E::Bin(op(ch), b(m), b(lit(ch)));
  let e = E::Bin(op(ch), b(e), b(lit(ch)));
  let e = if ch.flag() { E::Par(b(e)) } else { e };
  match check(ch, &e, false, false) {
    V::Skip(s) if s.starts_with("rejected by rustc") => V::Fail(format!("{s}")),
    v => v,
  }
}
const LI: &[u128] = &[0, 1, 2, 3, 7, 31, 63, 64, 100, 127, 128, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, (1 << 126) - 1, (1 << 127) - 1];
/// The operators of the public literal type.
fn c11_ops(ch: &mut Ch) -> V {
  use cmacro::ast::{BuiltInType, LitInt};
  const SUF: [Option<BuiltInType>; 5] = [None, Some(BuiltInType::UInt), Some(BuiltInType::Long), Some(BuiltInType::ULong), Some(BuiltInType::LongLong)];
  let mut lit = || {
    let v = LI[ch.pick(LI.len())] as i128;
    let v = if ch.flag() { -v } else { v };
    LitInt { value: v, suffix: SUF[ch.pick(SUF.len())] }
  };
  let (x, y) = (lit(), lit());
  let op = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"][ch.pick(10)];
  let (p, q) = (x.value, y.value);
  let want = match op {
    "+" => p.checked_add(q),
    "-" => p.checked_sub(q),
    "*" => p.checked_mul(q),
    "/" if q != 0 => Some(p / q),
    "%" if q != 0 => Some(p - p / q * q),
    "<<" if (0..127).contains(&q) => p.checked_mul(1 << q),
    ">>" if (0..127).contains(&q) => Some(p.div_euclid(1 << q)),
    // Bit by bit in two's complement.
    "&" | "|" | "^" => Some((0..128).fold(0u128, |v, i| {
      let (a, b) = ((p as u128) >> i & 1, (q as u128) >> i & 1);
      let bit = match op {
        "&" => a * b,
        "|" => a + b - a * b,
        _ => (a + b) % 2,
      };
      v | bit << i
    }) as i128),
    _ => None,
  };
  let Some(want) = want else { return V::Skip("no value, or one beyond 128 bits") };
  ch.note(format!("LitInt {x:?} {op} {y:?}"));
  let got = guard(|| match op {
    "+" => x + y,
    "-" => x - y,
    "*" => x * y,
    "/" => x / y,
    "%" => x % y,
    "<<" => x << y,
    ">>" => x >> y,
    "&" => x & y,
    "|" => x | y,
    _ => x ^ y,
  });
  ch.model_steps += 1;
  match got {
    Err(e) => V::Fail(e),
    Ok(g) if g.value != want => V::Fail(format!("{want} expected, got {g:?}")),
    // Of two different suffixes neither is that of the result, unless it is the one of the common type.
    Ok(g) if !matches!(op, "<<" | ">>") && match (x.suffix, y.suffix) {
      (Some(a), Some(b)) if a != b => {
        let common = if [a, b].contains(&BuiltInType::ULong) {
          Some(BuiltInType::ULong)
        } else if [a, b].contains(&BuiltInType::LongLong) {
          Some(BuiltInType::LongLong)
        } else {
          Some(BuiltInType::Long)
        };
        g.suffix.is_some() && g.suffix != common
      },
      (Some(s), None) | (None, Some(s)) => g.suffix != Some(s),
      _ => false,
    } => V::Fail(format!("operands with the suffixes {:?} and {:?}, the result has {:?}", x.suffix, y.suffix, g.suffix)),
    Ok(g) if x.suffix == y.suffix && g.suffix != x.suffix => V::Fail(format!("both operands have the suffix {:?}, the result {:?}", x.suffix, g.suffix)),
    Ok(g) => V::Ok(h(&format!("{:?}", g.suffix))),
  }
}
fn c11_boundaries(ch: &mut Ch) -> V {
  let k = ch.pick(65);
  let v = (1u128 << k) + ch.pick(3) as u128 - 1;
  if v > u64::MAX as u128 {
    return V::Skip("not an integer of 64 bits");
  }
  let e = num_lit(&if ch.flag() { format!("0x{v:x}") } else { format!("{v}") });
  let n = ch.pick(ch.tier.q(2, 3) + 1);
  let types: &[CT] = if n == 3 { &[Char, UChar, Short, UShort, Int, ULong] } else { ALL };
  let e = (0..n).fold(e, |e, _| {
    let i = ch.pick(3 + types.len());
    if i < 3 { E::Un(["-", "~", "!"][i], b(e)) } else { E::Cast(types[i - 3], b(e)) }
  });
  check(ch, &e, false, false)
}
fn c11_pairs(ch: &mut Ch) -> V {
  let n = ch.tier.q(1, 2);
  let op = BIN[ch.pick(BIN.len())];
  let x = atom(ch, NUMS, NCHR);
  let x = un(ch, n, x);
  let y = atom(ch, NUMS, NCHR);
  let y = un(ch, n, y);
  check(ch, &E::Bin(op, b(x), b(y)), false, false)
}
fn c11_triples(ch: &mut Ch) -> V {
  let (o1, o2) = (BIN[ch.pick(BIN.len())], BIN[ch.pick(BIN.len())]);
  let chrs = ch.tier.q(0, 3);
  let (x, y, z) = (atom(ch, NUMS2, chrs), atom(ch, NUMS2, chrs), atom(ch, NUMS2, chrs));
  let left = ch.flag();
  let n = ch.tier.q(0, 1);
  let e = if left {
    let i = un(ch, n, E::Bin(o1, b(x), b(y)));
    E::Bin(o2, b(i), b(z))
  } else {
    let i = un(ch, n, E::Bin(o2, b(y), b(z)));
    E::Bin(o1, b(x), b(i))
  };
  check(ch, &e, false, false)
}
fn c11_quads(ch: &mut Ch) -> V {
  let ops: &[&'static str] = if ch.tier == Tier::Quick { &["*", "/", "-", "<<", "<", "==", "&", "|"] } else { BIN };
  let o: Vec<&'static str> = (0..3).map(|_| ops[ch.pick(ops.len())]).collect();
  let nums: &[&str] = if ch.tier == Tier::Quick { &["7", "2", "100"] } else { &["7", "2", "100", "1u"] };
  let a: Vec<E> = (0..4).map(|_| num_lit(nums[ch.pick(nums.len())])).collect();
  let x = |op, l: E, r: E| E::Bin(op, b(l), b(r));
  let [p, q, r, s] = [a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone()];
  let e = match ch.pick(5) {
    0 => x(o[2], x(o[1], x(o[0], p, q), r), s),
    1 => x(o[2], x(o[0], p, x(o[1], q, r)), s),
    2 => x(o[1], x(o[0], p, q), x(o[2], r, s)),
    3 => x(o[0], p, x(o[2], x(o[1], q, r), s)),
    _ => x(o[0], p, x(o[1], q, x(o[2], r, s))),
  };
  check(ch, &e, false, false)
}
fn c11_casts(ch: &mut Ch) -> V {
  let n = ch.tier.q(1, 2);
  let quick = ch.tier == Tier::Quick;
  let types: &[CT] = if n == 2 { &[Bool, UChar, Short, Int, UInt, ULLong] } else { ALL };
  let nums = if quick { &NUMS3[..5] } else { &NUMS3[..4] };
  let op = BIN[ch.pick(BIN.len())];
  let x = atom(ch, nums, 0);
  let x = pre(ch, n, types, x);
  let y = atom(ch, nums, 0);
  let y = pre(ch, n, types, y);
  let e = E::Bin(op, b(x), b(y));
  let e = pre(ch, 1, types, e);
  check(ch, &e, false, false)
}
fn c11_same(ch: &mut Ch) -> V {
  let types: &[CT] = if ch.tier == Tier::Quick { &[Char, UChar, Int, UInt, Long] } else { &[Char, UChar, Short, Int, UInt, Long, ULong, LLong] };
  let nums = if ch.tier == Tier::Quick { &NUMS3[..5] } else { &NUMS3[..6] };
  let t = types[ch.pick(types.len())];
  let (o1, o2) = (BIN[ch.pick(BIN.len())], BIN[ch.pick(BIN.len())]);
  let mut x = || E::Cast(t, b(atom(ch, nums, 0)));
  let (x, y, z) = (x(), x(), x());
  let e = if ch.flag() { E::Bin(o2, b(E::Bin(o1, b(x), b(y))), b(z)) } else { E::Bin(o1, b(x), b(E::Bin(o2, b(y), b(z)))) };
  let e = match ch.pick(types.len() + 1) {
    0 => e,
    i => E::Cast(types[i - 1], b(e)),
  };
  check(ch, &e, false, false)
}
fn simple(ch: &mut Ch) -> E {
  match ch.pick(8) {
    0 => num_lit("0"),
    1 => num_lit("7"),
    2 => E::Un("~", b(num_lit("5"))),
    3 => E::Un("!", b(num_lit("3u"))),
    4 => {
      let op = BIN[ch.pick(BIN.len())];
      E::Bin(op, b(num_lit("6")), b(num_lit("4")))
    },
    5 => E::Cast([Int, Bool][ch.pick(2)], b(num_lit("300"))),
    6 => chr(0),
    _ => E::Un("!", b(E::Bin("<", b(num_lit("2")), b(num_lit("1"))))),
  }
}
fn c11_tern(ch: &mut Ch) -> V {
  let (c, x, y) = (simple(ch), simple(ch), simple(ch));
  let e = E::Tern(b(c), b(x), b(y));
  let wrap = |ch: &mut Ch, e: E| match ch.pick(8) {
    0 => e,
    1 => E::Bin(["+", "-", "*", "/", "<", "|", "<<"][ch.pick(7)], b(e), b(num_lit("2"))),
    2 => E::Bin(["+", "-", "*", "/", "<", "|", "<<"][ch.pick(7)], b(num_lit("9")), b(e)),
    3 => E::Un(UN[ch.pick(UN.len())], b(e)),
    4 => E::Cast([Int, UChar, Long, Bool][ch.pick(4)], b(e)),
    5 => E::Tern(b(e), b(num_lit("1")), b(num_lit("2"))),
    6 => E::Tern(b(num_lit("0")), b(num_lit("3")), b(e)),
    _ => E::Tern(b(num_lit("1")), b(e), b(num_lit("4"))),
  };
  let e = wrap(ch, e);
  let e = if ch.tier == Tier::Thorough { wrap(ch, e) } else { e };
  check(ch, &e, false, false)
}
fn c11_sizeof(ch: &mut Ch) -> V {
  let types: Vec<CT> = ALL.iter().copied().chain([Float, Double]).collect();
  let s = E::SizeOf(types[ch.pick(types.len())]);
  let e = match ch.pick(6) {
    0 => s,
    1 => E::Bin(BIN[ch.pick(BIN.len())], b(s), b(num_lit(NUMS2[ch.pick(NUMS2.len())]))),
    2 => {
      let op = BIN[ch.pick(BIN.len())];
      E::Bin(op, b(num_lit(NUMS2[ch.pick(NUMS2.len())])), b(s))
    },
    3 => E::Cast(ALL[ch.pick(ALL.len())], b(s)),
    4 => E::Un(UN[ch.pick(UN.len())], b(s)),
    _ => E::Bin(BIN[ch.pick(BIN.len())], b(s), b(E::SizeOf(types[ch.pick(types.len())]))),
  };
  check(ch, &e, false, false)
}
fn c11_undefined(ch: &mut Ch) -> V {
  let x = num_lit(["1", "0", "7u"][ch.pick(3)]);
  let x = if ch.flag() { E::Cast(Int, b(x)) } else { x };
  let op = ["/", "%", "<<", ">>"][ch.pick(4)];
  let z = if matches!(op, "/" | "%") {
    match ch.pick(8) {
      0 => num_lit("0"),
      1 => num_lit("00"),
      2 => E::Un("-", b(num_lit("0"))),
      3 => E::Bin("-", b(num_lit("3")), b(num_lit("3"))),
      4 => E::Un("!", b(num_lit("5"))),
      5 => E::Cast(Int, b(num_lit("0"))),
      6 => E::Bin("<", b(num_lit("2")), b(num_lit("1"))),
      _ => num_lit("0u"),
    }
  } else {
    match ch.pick(3) {
      0 => E::Un("-", b(num_lit("1"))),
      1 => E::Bin("-", b(num_lit("3")), b(num_lit("5"))),
      _ => E::Un("~", b(num_lit("0"))),
    }
  };
  let mut e = E::Bin(op, b(x), b(z));
  for _ in 0..2 {
    e = match ch.pick(7) {
      0 => e,
      1 => E::Un(UN[ch.pick(UN.len())], b(e)),
      2 => E::Bin(BIN[ch.pick(BIN.len())], b(e), b(num_lit("2"))),
      3 => E::Bin(BIN[ch.pick(BIN.len())], b(num_lit("0")), b(e)),
      4 => E::Cast([Int, UChar, Bool][ch.pick(3)], b(e)),
      5 => E::Tern(b(e), b(num_lit("1")), b(num_lit("2"))),
      _ => E::Tern(b(num_lit("1")), b(e), b(num_lit("2"))),
    };
  }
  check(ch, &e, ch.tier == Tier::Thorough && false, false)
}

// ------------------------------------------------------------------------------------------------------------------

fn flt(text: &str) -> E {
  let l = text.to_ascii_lowercase();
  if let Some(x) = l.strip_suffix('f') {
    E::Lit(text.into(), CV::F(x.parse().unwrap()), Float)
  } else if let Some(x) = l.strip_suffix('l') {
    E::Lit(text.into(), CV::D(x.parse().unwrap()), LDouble)
  } else {
    E::Lit(text.into(), CV::D(l.parse().unwrap()), Double)
  }
}
const FL: &[&str] = &[
  "0.0", "1.0", "0.1", "1.5", "2.", ".5", "1e3", "1e-3", "0.1f", "1.5f", "2.F", "16777217.0", "16777216.f", "3.5L", "0.1l", "1e400", "1e39f", "1e308", "1e-400", "4.9e-324", "1e-45f", "1.7976931348623157e308",
  "3.4028235e38f", "0.0f", "0.0L", ".0l", "123456789.123456789", "1e22", "9007199254740993.0",
];
const FL2: &[&str] = &["0.0", "0.0L", "0.1", "1.5", "0.1f", "0.0f", "3.5L", "1e39f", "1e308"];
const FI: &[&str] = &["0", "1", "3", "16777217", "9007199254740993", "0xFFFFFFFFFFFFFFFF", "3u", "7L", "16777217ul", "16777219LL"];

pub fn c10(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "literals", bounds: format!("every literal text: up to {} integer and fraction digits of 0 1 9, 10 exponents, 5 suffixes, with up to 2 unary operators", t.q(3, 4)), f: c10_lits },
    Space { name: "unary", bounds: format!("{} floating-point and {} integer literals with every chain of up to {} operators - + ~ ! and casts to 7 types, in parentheses or not, alone or in a sum, product or comparison", FL.len(), FI.len(), t.q(3, 4)), f: c10_unary },
    Space { name: "boundaries", bounds: format!("the integers 2^k - 1, 2^k and 2^k + 1 for every k in 0..=64, also at 2^k + half of the unit that a float or double of that size has and next to it, in decimal and hexadecimal, signed or not, negated or not, with up to {} casts to 12 integer types before a cast to or arithmetic with a float, double or long double", t.q(1, 2)), f: c10_boundaries },
    Space { name: "literal_operators", bounds: "every pair of the floating-point literals of every type with the four operators of the literal type itself".into(), f: c10_ops },
    Space { name: "rounding", bounds: "the decimal neighbours of the midpoint between adjacent f32 and f64 values: 2^k + half an ulp, exactly and one unit in the last decimal digit above and below, k in -149..=127 resp. -64..=127".into(), f: c10_round },
    Space { name: "pairs", bounds: format!("every two of {} floating-point and {} integer literals (at least one floating-point), each with up to one unary operator, and each of the 10 operators", FL.len(), FI.len()), f: c10_pairs },
    Space { name: "triples", bounds: format!("every two operators over three of {} floating-point and {} integer literals in both groupings", FL2.len(), t.q(3, 6)), f: c10_triples },
    Space { name: "casts", bounds: format!("floating-point and integer literals with a cast to {} types, up to one unary operator on each side, with each operator and a literal or cast literal", t.q(5, 10)), f: c10_casts },
    Space { name: "conditional", bounds: "floating-point conditions, negations and branches".into(), f: c10_tern },
  ]
}
fn c10_boundaries(ch: &mut Ch) -> V {
  let k = ch.pick(65);
  let v = (1u128 << k) + match ch.pick(3) {
    1 if k >= 24 => 1 << (k - 24),
    2 if k >= 53 => 1 << (k - 53),
    0 => 0,
    _ => return V::Skip("exactly a floating-point number"),
  };
  let v = v + ch.pick(3) as u128 - 1;
  if v > u64::MAX as u128 {
    return V::Skip("not an integer of 64 bits");
  }
  let text = if ch.flag() { format!("0x{v:x}") } else { format!("{v}") };
  let e = num_lit(&format!("{text}{}", ["", "u", "ll"][ch.pick(3)]));
  let e = if ch.flag() { E::Un("-", b(e)) } else { e };
  let n = ch.tier.q(1, 2);
  let e = (0..ch.pick(n + 1)).fold(e, |e, _| E::Cast(ALL[ch.pick(ALL.len())], b(e)));
  let e = match ch.pick(9) {
    i @ 0..=2 => E::Cast([Float, Double, LDouble][i], b(e)),
    i @ 3..=5 => E::Bin("+", b(e), b(flt(["0.5f", "0.5", "0.5l"][i - 3]))),
    6 => E::Bin("*", b(flt("1.0f")), b(e)),
    7 => E::Bin("<", b(flt("1e19")), b(e)),
    _ => E::Bin("-", b(E::Cast(Float, b(e))), b(flt("1.0"))),
  };
  check(ch, &e, false, true)
}
const FOP: &[&str] = &["+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="];

fn c10_lits(ch: &mut Ch) -> V {
  let n = ch.tier.q(3, 4);
  let mut digits = |ch: &mut Ch, n: usize| {
    let k = ch.pick(n + 1);
    (0..k).map(|_| ['0', '1', '9'][ch.pick(3)]).collect::<String>()
  };
  let (i, f) = (digits(ch, n), digits(ch, n));
  if i.is_empty() && f.is_empty() {
    return V::Skip("no digits");
  }
  let exp = ["", "e0", "E1", "e+5", "e-7", "e38", "e39", "E-46", "e308", "e-330"][ch.pick(10)];
  let dot = !f.is_empty() || exp.is_empty() || ch.flag();
  let suffix = ["", "f", "F", "l", "L"][ch.pick(5)];
  let text = format!("{i}{}{f}{exp}{suffix}", if dot { "." } else { "" });
  let e = flt(&text);
  let k = ch.pick(4);
  let e = match k {
    0 => e,
    1 => E::Un("-", b(e)),
    2 => E::Un("-", b(E::Un("-", b(e)))),
    _ => E::Un("!", b(E::Un("+", b(e)))),
  };
  check(ch, &e, false, true)
}

/// The operators of the public literal type.
fn c10_ops(ch: &mut Ch) -> V {
  use cmacro::ast::LitFloat;
  let (x, y) = (FL[ch.pick(FL.len())], FL[ch.pick(FL.len())]);
  let op = FOP[ch.pick(4)];
  ch.note(format!("LitFloat {x} {op} {y}"));
  let parse = |s: &'static str| LitFloat::try_from(s).map_err(|e| format!("{s}: {e:?}"));
  let got = guard(|| -> Result<LitFloat, String> {
    let (x, y) = (parse(x)?, parse(y)?);
    Ok(match op {
      "+" => x + y,
      "-" => x - y,
      "*" => x * y,
      _ => x / y,
    })
  });
  let want = eval(&E::Bin(op, b(flt(x)), b(flt(y))), &mut ch.model_steps, &mut vec![]);
  let got = match got {
    Ok(Ok(g)) => g,
    Ok(Err(e)) | Err(e) => return V::Fail(e),
  };
  let same = |g: f64, w: f64| g.to_bits() == w.to_bits() || g.is_nan() && w.is_nan();
  let ok = match (got, want) {
    (LitFloat::Float(g), Ok((CV::F(w), Float))) => g.to_bits() == w.to_bits() || g.is_nan() && w.is_nan(),
    (LitFloat::Double(g), Ok((CV::D(w), Double))) | (LitFloat::LongDouble(g), Ok((CV::D(w), LDouble))) => same(g, w),
    _ => false,
  };
  if !ok {
    return V::Fail(format!("C: {want:?}\nRust: {got:?}"));
  }
  V::Ok(h(&format!("{got:?}")))
}
fn c10_unary(ch: &mut Ch) -> V {
  let (e, _) = fatom(ch, FL, FI);
  let n = ch.pick(ch.tier.q(3, 4) + 1);
  let types = [Float, Double, LDouble, Int, UInt, Bool, UChar];
  let types = &types[..if n == 4 { 4 } else { 7 }];
  let e = (0..n).fold(e, |e, _| {
    let i = ch.pick(UN.len() + types.len());
    if i < UN.len() { E::Un(UN[i], b(e)) } else { E::Cast(types[i - UN.len()], b(e)) }
  });
  let e = if n < 3 && ch.flag() { E::Par(b(e)) } else { e };
  let k = ch.pick(if n < 3 { 9 } else { 2 });
  let e = match k {
    0 => e,
    1..=4 => E::Bin(["+", "*", "<", "=="][k - 1], b(e), b(num_lit("5"))),
    _ => E::Bin(["-", "/", ">=", "!="][k - 5], b(flt("2.5f")), b(e)),
  };
  if !has(&e, &|e| matches!(e, E::Lit(_, CV::F(_) | CV::D(_), _) | E::Cast(Float | Double | LDouble, _))) {
    return V::Skip("no floating-point operand");
  }
  check(ch, &e, false, true)
}

/// `m * 2^k` (plus `delta` units in the last place written) in decimal.
fn exact(m: u128, k: i32, delta: i32) -> String {
  // Digits of m * 2^k: multiply the decimal digits, little endian, with the point after `frac` digits.
  let mut d: Vec<u8> = m.to_string().bytes().rev().map(|c| c - b'0').collect();
  let mut frac = 0;
  for _ in 0..k.unsigned_abs() {
    // *2, or *5 with the point moved.
    let f = if k < 0 { 5 } else { 2 };
    let mut c = 0;
    for x in d.iter_mut() {
      let v = *x * f + c;
      *x = v % 10;
      c = v / 10;
    }
    if c > 0 {
      d.push(c);
    }
    if k < 0 {
      frac += 1;
    }
  }
  // One more digit so that the neighbour is close.
  d.insert(0, 0);
  frac += 1;
  let mut i = 0;
  if delta > 0 {
    d[0] += 1;
  } else if delta < 0 {
    while d[i] == 0 {
      d[i] = 9;
      i += 1;
    }
    d[i] -= 1;
  }
  while d.len() <= frac {
    d.push(0);
  }
  let s: String = d.iter().rev().map(|c| (c + b'0') as char).collect();
  let (a, z) = s.split_at(s.len() - frac);
  format!("{a}.{z}")
}
fn c10_round(ch: &mut Ch) -> V {
  let single = ch.flag();
  let odd = ch.flag();
  let delta = ch.pick(3) as i32 - 1;
  let (mant, lo) = if single { (24u32, -149) } else { (53, -64) };
  let k = lo + ch.pick((127 - lo + 1) as usize) as i32;
  // The value (2^(mant-1) + odd + 1/2) * 2^(k-mant+1), halved ulp: scaled by two.
  let m = ((1u128 << (mant - 1)) + odd as u128) * 2 + 1;
  let exp = k - mant as i32;
  if single && exp < -149 - 24 {
    return V::Skip("below the smallest value");
  }
  let text = format!("{}{}", exact(m, exp, delta), if single { "f" } else { "" });
  // Independent of the standard library's parser: round half to even by construction (normal numbers).
  let normal = !single || k >= -126;
  let e = flt(&text);
  if normal {
    let up = delta > 0 || delta == 0 && odd;
    let q = (1u128 << (mant - 1)) + odd as u128 + up as u128;
    let v = q as f64 * 2f64.powi(k - mant as i32 + 1);
    let same = match &e {
      E::Lit(_, CV::F(f), _) => *f as f64 == v,
      E::Lit(_, CV::D(d), _) => *d == v,
      _ => false,
    };
    if !same {
      return V::Fail(format!("harness: reference value of {text}"));
    }
  }
  check(ch, &e, false, true)
}
fn fatom(ch: &mut Ch, fl: &[&str], fi: &[&str]) -> (E, bool) {
  let i = ch.pick(fl.len() + fi.len());
  if i < fl.len() { (flt(fl[i]), true) } else { (num_lit(fi[i - fl.len()]), false) }
}
fn c10_pairs(ch: &mut Ch) -> V {
  let op = FOP[ch.pick(FOP.len())];
  let (x, fx) = fatom(ch, FL, FI);
  let x = un(ch, 1, x);
  let (y, fy) = fatom(ch, FL, FI);
  let y = un(ch, 1, y);
  if !fx && !fy {
    return V::Skip("no floating-point operand");
  }
  check(ch, &E::Bin(op, b(x), b(y)), false, true)
}
fn c10_triples(ch: &mut Ch) -> V {
  let (o1, o2) = (FOP[ch.pick(FOP.len())], FOP[ch.pick(FOP.len())]);
  let fi: &[&str] = if ch.tier == Tier::Quick { &["2", "16777217", "9007199254740993"] } else { &["0", "2", "7u", "16777217", "9007199254740993", "5L"] };
  let (x, _) = fatom(ch, FL2, fi);
  let (y, _) = fatom(ch, FL2, fi);
  let (z, _) = fatom(ch, FL2, fi);
  let e = if ch.flag() { E::Bin(o2, b(E::Bin(o1, b(x), b(y))), b(z)) } else { E::Bin(o1, b(x), b(E::Bin(o2, b(y), b(z)))) };
  if !has(&e, &|e| matches!(e, E::Lit(_, CV::F(_) | CV::D(_), _))) {
    return V::Skip("no floating-point operand");
  }
  check(ch, &e, false, true)
}
fn c10_casts(ch: &mut Ch) -> V {
  let all = [Float, Double, LDouble, Int, Bool, UChar, Short, ULong, Long, Char];
  let types = &all[..if ch.tier == Tier::Quick { 5 } else { 10 }];
  let (x, _) = if ch.tier == Tier::Quick { fatom(ch, FL2, FI) } else { fatom(ch, FL, FI) };
  let x = un(ch, 1, x);
  let x = E::Cast(types[ch.pick(types.len())], b(x));
  let x = un(ch, 1, x);
  let e = match ch.pick(3) {
    0 => x,
    1 => {
      let op = FOP[ch.pick(FOP.len())];
      let (y, _) = fatom(ch, FL2, &["0", "3", "16777217"]);
      let y = match ch.pick(types.len() + 1) {
        0 => y,
        i => E::Cast(types[i - 1], b(y)),
      };
      if ch.flag() { E::Bin(op, b(x), b(y)) } else { E::Bin(op, b(y), b(x)) }
    },
    _ => E::Cast(types[ch.pick(types.len())], b(x)),
  };
  check(ch, &e, false, true)
}
fn c10_tern(ch: &mut Ch) -> V {
  let fl = &["0.0", "0.5", "0.1f", "-0.0", "2.5L"];
  let f = |ch: &mut Ch| match fl[ch.pick(fl.len())] {
    "-0.0" => E::Un("-", b(flt("0.0"))),
    s => flt(s),
  };
  let c = match ch.pick(5) {
    0 => f(ch),
    1 => E::Un("!", b(f(ch))),
    2 => E::Cast(Double, b(f(ch))),
    3 => E::Bin(FOP[ch.pick(FOP.len())], b(f(ch)), b(f(ch))),
    _ => num_lit("1"),
  };
  let (x, y) = (f(ch), f(ch));
  let e = E::Tern(b(c), b(x), b(y));
  let e = match ch.pick(4) {
    0 => e,
    1 => E::Un(["-", "!"][ch.pick(2)], b(e)),
    2 => {
      let op = FOP[ch.pick(FOP.len())];
      E::Bin(op, b(e), b(f(ch)))
    },
    _ => E::Cast([Float, Double, Int, Bool][ch.pick(4)], b(e)),
  };
  check(ch, &e, false, true)
}
