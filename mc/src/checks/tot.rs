//! C13, C14: arbitrary token sequences and deep nesting.

use crate::engine::*;
use crate::gen::{self, Cx};
use crate::syntax;
use cmacro::{FnMacro, MacroSet, VarMacro};

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C13" => vec![
      "whether code is valid is decided by parsing it with syn's full Rust grammar, after replacing `$x` by an identifier and `$($__VA_ARGS__),*` by two",
      "`_` as a C identifier is not explored",
    ],
    "C14" => vec![
      "nesting up to the bounds of C's own minimum limits (63 levels); memory and time are bounded per case, a crash or hang of a worker is a violation",
      "tokens are given as the preprocessor's token spellings, each on its own",
    ],
    _ => vec![],
  }
}

/// Every kind of token the crate tells apart.
const ALPHABET: &[&str] = &[
  "x", "1", "(", ")", "+", "*", "=", ",", ";", "{", "}", "y", "T", "int", "f", "'a'", "\"s\"", "1.5", "[", "]", "-", "&", "<", "?", ":", "!",
  "~", ".", "->", "++", "+=", "#", "##", "sizeof", "if", "else", "do", "while", "asm", "volatile", "const", "struct", "unsigned", "void",
  "__VA_ARGS__", "...", "match", "self", "E1", "0", "u8\"s\"", "L'a'", "__LINE__", "__FILE__", "extern", "static", "long", "char", "2x", "@", "/**/",
  "<<", "==", "/", "%", "300u", "goto", "$", "\\", "", " ", "é", "'", "\"", "signed", "--",
];
/// The first of them are the reduced alphabet.
const REDUCED: usize = 30;

fn context(k: usize) -> Cx {
  let mut c = Cx::default();
  c.types.push(("T".into(), "U".into()));
  c.enums.push(("E1".into(), "E".into(), "E::E1".into()));
  if k == 1 {
    c.args.push(("*".into(), "x".into(), "c_int".into()));
    c.args.push(("*".into(), "y".into(), "*mut c_char".into()));
    c.fns.push(("f".into(), vec!["c_int".into(), "*const c_char".into()], "c_int".into()));
    c.tr = Some("::core".into());
    c.ffi = Some("::core::ffi".into());
    c.target = Some("1.50.0".into());
  }
  c
}

#[derive(Clone, Copy, Debug)]
enum Mode {
  Var,
  Fn,
  /// Everything known.
  Known,
  Variadic,
}
const MODES: [Mode; 4] = [Mode::Var, Mode::Fn, Mode::Known, Mode::Variadic];

/// The message says what the error carries.
fn message(text: &str, parts: &[&str]) -> Result<(), String> {
  match parts.iter().find(|p| !text.contains(**p)) {
    _ if text.trim().is_empty() => Err("an error without a message".into()),
    Some(p) => Err(format!("the message {text:?} does not say {p:?}")),
    None => Ok(()),
  }
}
fn expansion(e: &cmacro::ExpansionError) -> Result<(), String> {
  use cmacro::ExpansionError::*;
  let text = e.to_string();
  match e {
    // Quoted.
    InvalidToken(_) => message(&text, &[]),
    FnMacroArgumentError { name, required, given } => message(&text, &[name, &required.to_string(), &given.to_string()]),
    NonUniqueArgument(n) => message(&text, &[n]),
    _ => message(&text, &[]),
  }
}
fn codegen(e: &cmacro::CodegenError) -> Result<(), String> {
  use cmacro::CodegenError::*;
  let text = e.to_string();
  match e {
    RecursiveDefinition(s) | UnsupportedExpression(s) | UnsupportedType(s) => message(&text, &[s]),
    _ => message(&text, &[]),
  }
}

fn run(ch: &mut Ch, mode: Mode, body: &[&str], check: bool) -> V {
  ch.note(format!("{mode:?}: {}", body.join(" ")));
  let r = guard(|| {
    let mut m = MacroSet::new();
    let cx = context(matches!(mode, Mode::Known) as usize);
    match mode {
      Mode::Var => {
        m.define_var_macro("M", body);
        let t = match m.expand_var_macro("M") {
          Ok(t) => t,
          Err(e) => return expansion(&e).map(|_| 1),
        };
        let mut v = match VarMacro::parse("M", &t) {
          Ok(v) => v,
          Err(e) => return message(&e.to_string(), &[]).map(|_| 2),
        };
        match v.generate(&cx) {
          Ok((e, t)) => {
            if check {
              syntax::var(e, t)?;
            }
            Ok(3)
          },
          Err(e) => codegen(&e).map(|_| 4),
        }
      },
      mode => {
        let params: &[&str] = if matches!(mode, Mode::Variadic) { &["x", "..."] } else { &["x", "y"] };
        m.define_fn_macro("M", params, body);
        let (a, t) = match m.expand_fn_macro("M") {
          Ok(x) => x,
          Err(e) => return expansion(&e).map(|_| 1),
        };
        let mut f = match FnMacro::parse("M", &a, &t) {
          Ok(f) => f,
          Err(e) => return message(&e.to_string(), &[]).map(|_| 2),
        };
        match f.generate(&cx) {
          Ok(ts) => {
            if check {
              syntax::items("M", ts)?;
            }
            Ok(3)
          },
          Err(e) => codegen(&e).map(|_| 4),
        }
      },
    }
  });
  match r {
    Ok(Ok(s)) => {
      ch.model_steps += 1;
      if check && s != 3 {
        V::Skip("reported as an error")
      } else {
        V::Ok(h(&(mode as u8, s)))
      }
    },
    Ok(Err(s)) | Err(s) => V::Fail(s),
  }
}

fn soup(ch: &mut Ch, n: usize, a: &[&'static str], modes: &[Mode], check: bool) -> V {
  let mode = modes[ch.pick(modes.len())];
  let body: Vec<&str> = (0..n).map(|_| a[ch.pick(a.len())]).collect();
  run(ch, mode, &body, check)
}

fn soup_short(ch: &mut Ch, check: bool) -> V {
  let m = ch.tier.q(3, 4);
  let n = ch.pick(m + 1);
  soup(ch, n, ALPHABET, &MODES, check)
}
fn soup_long(ch: &mut Ch, check: bool) -> V {
  let n = ch.tier.q(4, 5);
  soup(ch, n, &ALPHABET[..REDUCED], &[Mode::Known, Mode::Variadic], check)
}

/// Frames with holes for tokens: most sequences outside of them are rejected early.
const FRAMES: &[(&[&str], &[&str])] = &[
  (&["("], &[")"]),
  (&["{"], &["}"]),
  (&["(", "int", ")"], &[]),
  (&["f", "("], &[")"]),
  (&["asm", "(", "\"s\""], &[")"]),
  (&["asm", "volatile", "(", "\"s\"", ":", "\"=r\"", "("], &[")", ")"]),
  (&["asm", "(", "\"%0\"", ":", ":", "\"r\"", "(", "x", ")"], &[")", ";"]),
  (&["sizeof", "("], &[")"]),
  (&["x", "?"], &[":", "y"]),
  (&["if", "("], &[")", "x", ";"]),
  (&["if", "(", "x", ")"], &["else", "y", ";"]),
  (&["do", "{"], &["}", "while", "(", "0", ")"]),
  (&["do", "x", "++", ";", "while", "("], &[")"]),
  (&["{", "int"], &[";", "}"]),
  (&["int", "y", "="], &[";"]),
  (&["x", "["], &["]"]),
  (&["x", "."], &[]),
  (&["*", "(", "volatile", "int", "*", ")"], &[]),
  (&["-", "1"], &[]),
  (&["\"s\""], &["\"t\""]),
  (&["x", "##"], &[]),
  (&["#", "x"], &[]),
  (&["("], &[")", "x"]),
  (&["extern", "int"], &[";"]),
  (&["x", "=", "(", "T", "*", ")"], &[";"]),
  (&["struct", "T"], &["x"]),
  (&["'a'"], &["1.5"]),
  (&["300u"], &["1"]),
  (&["f", "(", "x", ")"], &["y"]),
  (&["{", "x", ";"], &["}"]),
  (&["(", "T", ")"], &["x"]),
];

fn framed(ch: &mut Ch, check: bool) -> V {
  let mode = MODES[ch.pick(MODES.len())];
  let (a, b) = FRAMES[ch.pick(FRAMES.len())];
  let m = ch.tier.q(2, 3);
  let n = ch.pick(m + 1);
  let al: &[&str] = if n <= 2 { ALPHABET } else { &ALPHABET[..48] };
  let mut body: Vec<&str> = a.to_vec();
  body.extend((0..n).map(|_| al[ch.pick(al.len())]));
  body.extend(b);
  run(ch, mode, &body, check)
}

/// (before, core, after) repeated `n` times around the core.
const NESTS: &[(&[&str], &[&str], &[&str])] = &[
  (&["("], &["x"], &[")"]),
  (&["(", "("], &["x", "x"], &[")", ")"]),
  (&["(", "T", ")", "("], &["x"], &[")"]),
  (&["(", "y", ")", "("], &["1", "1"], &[")"]),
  (&["(", "y", ")", "("], &["1"], &[")"]),
  (&["(", "y", ")"], &["1"], &[]),
  (&["(", "int", ")"], &["x", "x"], &[]),
  (&["("], &["x"], &[")", "*", "y"]),
  (&["("], &["x"], &[")", "x"]),
  (&["("], &["x"], &["++", ")"]),
  (&["("], &["x"], &["+", "y", ")"]),
  (&["x", "+", "("], &["y"], &[")"]),
  (&["(", "x", ")", "*", "("], &["y"], &[")"]),
  (&["(", "x", ")", "-"], &["y"], &[]),
  (&["(", "x", ")", "*"], &["y"], &[]),
  (&["(", "x", ")", "&"], &["y", "y"], &[]),
  (&["*"], &["x"], &[]),
  (&["&", "*"], &["x"], &[]),
  (&["-"], &["1"], &[]),
  (&["- ", "-"], &["x"], &[]),
  (&["!"], &["x"], &[]),
  (&["~"], &["x"], &[]),
  (&["++", "*"], &["x"], &[]),
  (&["*", "("], &["x"], &["++", ")"]),
  (&["*", "("], &["x"], &["=", "y", ")"]),
  (&["*", "(", "volatile", "int", "*", ")"], &["x"], &[]),
  (&["sizeof", "("], &["T"], &[")"]),
  (&["f", "("], &["x"], &[")"]),
  (&["f", "("], &["x"], &[",", "y", ")"]),
  (&["x", "["], &["y"], &["]"]),
  (&[], &["x"], &["[", "1", "]"]),
  (&[], &["x"], &[".", "y"]),
  (&[], &["x"], &["->", "y"]),
  (&[], &["x"], &["++"]),
  (&[], &["x"], &["(", "y", ")"]),
  (&[], &["x"], &["+", "1"]),
  (&[], &["1"], &["*", "2"]),
  (&[], &["x"], &["<", "1"]),
  (&["x", "?"], &["1"], &[":", "2"]),
  (&["x", "?", "1", ":"], &["2"], &[]),
  (&[], &["x"], &["?", "1", ":", "2"]),
  (&["("], &["x"], &["?", "1", ":", "2", ")"]),
  (&["x", "="], &["1"], &[]),
  (&["x", "+="], &["1"], &[]),
  (&["x", "=", "("], &["1"], &[")"]),
  (&["{"], &["x", ";"], &["}"]),
  (&["{"], &["x"], &["}"]),
  (&["{", "x", ";"], &[], &["}"]),
  (&["if", "(", "x", ")"], &["y", ";"], &[]),
  (&["if", "(", "x", ")"], &["y"], &[]),
  (&["if", "(", "x", ")", "{"], &["y", ";"], &["}", "else", "x", ";"]),
  (&["if", "(", "x", ")", "y", ";", "else"], &["y", ";"], &[]),
  (&["do"], &["y", ";"], &["while", "(", "0", ")", ";"]),
  (&["do", "{"], &["y", ";"], &["}", "while", "(", "x", ")", ";"]),
  (&["do", "{"], &["y", ";"], &["}", "while", "(", "x", ")"]),
  (&["{", "int", "y", "=", "x", ";"], &["x", ";"], &["}"]),
  (&["x", ";"], &[], &[]),
  (&["\"s\""], &["\"s\""], &[]),
  (&["\"s\""], &["x"], &[]),
  (&["x", "##"], &["y"], &[]),
  (&["asm", "(", "\"\"", ":", ":", "\"r\"", "("], &["x"], &[")", ")"]),
  (&["(", "T", "*"], &["x"], &[")", "x"]),
  (&["(", "T"], &["x"], &["*", ")", "x"]),
  (&["x", ","], &["x"], &[]),
  (&["const"], &["int"], &["*"]),
  (&["volatile"], &["int", "x", "=", "1", ";"], &[]),
  (&["(", "int"], &["x"], &["*"]),
  (&["("], &["x"], &[]),
  (&["{"], &["x"], &[]),
  (&["["], &["x"], &[]),
  (&["f", "("], &["x"], &[]),
  (&["(", "y", ")", "("], &["1"], &[]),
  (&["if", "("], &["x"], &[]),
  (&["do", "{"], &["x"], &[]),
  (&["x", "?"], &["x"], &[]),
  (&["x", "?", "("], &["x"], &[]),
  (&["(", "(", "x", ")"], &["x"], &[")"]),
  (&["(", "(", "T", ")"], &["x"], &[")"]),
  (&["(", "T", ")", "("], &["x", ")"], &[")"]),
  (&["x", "=", "{"], &["x"], &["}"]),
  (&["*", "("], &["x"], &[")"]),
  (&["-", "("], &["x"], &[")"]),
  (&["(", "void", ")", "("], &["x"], &[")"]),
  (&["(", "T", ")", "*", "("], &["x"], &[")"]),
  (&["(", "y", ")", "+", "("], &["x"], &[")"]),
  (&["(", "y", ")", "*"], &["x"], &[]),
  (&["(", "y", ")", "*", "("], &["1"], &[")"]),
  (&["(", "y", ")", "-", "("], &["x"], &[")", "+", "1"]),
];

fn nested(ch: &mut Ch, check: bool) -> V {
  let mode = MODES[ch.pick(MODES.len())];
  let (a, c, b) = NESTS[ch.pick(NESTS.len())];
  let (a2, _, b2) = match ch.tier {
    Tier::Quick => (a, c, b),
    Tier::Thorough => NESTS[ch.pick(NESTS.len())],
  };
  let n = [1, 2, 3, 5, 8, 16, 32, 63, 127, 255][ch.pick(10)];
  let mut body = vec![];
  for i in 0..n {
    body.extend(if i % 2 == 0 { a } else { a2 });
  }
  body.extend(c);
  for i in (0..n).rev() {
    body.extend(if i % 2 == 0 { b } else { b2 });
  }
  run(ch, mode, &body, check)
}

/// The same for the preprocessor: macros calling each other.
fn chains(ch: &mut Ch) -> V {
  let kind = ch.pick(8);
  let n = [1, 2, 5, 16, 40][ch.pick(5)];
  let start = ch.pick(2);
  ch.note(format!("chain kind {kind} of {n} macros, start {start}"));
  let r = guard(|| {
    let mut m = MacroSet::new();
    for i in 0..n {
      let (name, next) = (format!("A{i}"), format!("A{}", i + 1));
      let s = next.as_str();
      match kind {
        0 => m.define_var_macro(name, &[s]),
        1 => m.define_fn_macro(name, ["x"], &[s, "(", "x", ")"]),
        2 => m.define_fn_macro(name, ["x"], &["x", s, "(", "x", ")"]),
        3 => m.define_fn_macro(name, ["x"], &["(", s, ")", "(", "x", ")"]),
        4 => m.define_fn_macro(name, ["..."], &[s, "(", "__VA_ARGS__", ")"]),
        5 => m.define_fn_macro(name, ["x"], &["#", "x", s, "(", "x", ")"]),
        6 => m.define_var_macro(name, &[s, "A0", s, "+"][..2.min(4)]),
        _ => m.define_fn_macro(name, ["x", "y"], &[s, "(", "y", ",", "x", "##", "1", ")"]),
      };
    }
    let last = format!("A{n}");
    if start == 1 {
      // Close the circle.
      if kind == 0 || kind == 6 {
        m.define_var_macro(last, &["A0"]);
      } else if kind == 7 {
        m.define_fn_macro(last, ["x", "y"], &["A0", "(", "x", ",", "y", ")"]);
      } else {
        m.define_fn_macro(last, ["x"], &["A0", "(", "x", ")"]);
      }
    }
    if kind == 0 || kind == 6 {
      m.expand_var_macro("A0").is_ok()
    } else {
      m.expand_fn_macro("A0").is_ok()
    }
  });
  match r {
    Ok(b) => V::Ok(h(&(kind, b))),
    Err(s) => V::Fail(s),
  }
}

/// Names, parameters and types that are not what they should be.
fn odd_names(ch: &mut Ch) -> V {
  let names = ["", " ", "1", "x y", "match", "crate", "self", "_", "é", "...", "#", "__VA_ARGS__", "\u{301}", "a\u{301}", "x\\u00e9", "M"];
  let name = names[ch.pick(names.len())];
  let p = names[ch.pick(names.len())];
  let q = names[ch.pick(names.len())];
  ch.note(format!("#define {name:?}({p:?}, {q:?}) with uses of the parameters"));
  let r = guard(|| {
    let cx = context(0);
    let mut m = MacroSet::new();
    m.define_var_macro(name, &[p, "+", q]);
    let _ = m.expand_var_macro(name).map(|t| VarMacro::parse(name, &t).map(|mut v| v.generate(&cx).is_ok()));
    m.undefine_var_macro(name);
    m.define_fn_macro(name, [p, q], &[p, "+", q, "+", "__VA_ARGS__"]);
    let _ = m.expand_fn_macro(name).map(|(a, t)| FnMacro::parse(name, &a, &t).map(|mut v| v.generate(&cx).is_ok()));
    let _ = p.parse::<cmacro::Type>();
    let _ = [p, q, name].join(" ").parse::<cmacro::Type>();
    gen::var(&cx, name, &["#", p]);
  });
  match r {
    Ok(()) => V::Ok(0),
    Err(s) => V::Fail(s),
  }
}

const ATOMS: &[&[&str]] = &[
  &["x"], &["1"], &["-", "1"], &["1.5f"], &["'a'"], &["\"s\""], &["u8\"s\""], &["L\"s\""], &["\"s\"", "\"t\""], &["#", "x"], &["x", "##", "y"],
  &["z", "##", "x"], &["sizeof", "(", "T", ")"], &["f", "(", "x", ",", "y", ")"], &["g", "(", ")"], &["__LINE__"], &["__FILE__"], &["E1"],
  &["(", "T", "*", ")", "x"], &["(", "unsigned", "char", ")", "1"], &["match"], &["(", "x", ")"], &["*", "(", "volatile", "int", "*", ")", "x"],
  &["x", "=", "1"], &["x", "++"], &["*", "y"], &["\"s\"", "#", "x"], &["x", "?", "1", ":", "2"], &["x", "[", "1", "]"], &["x", ".", "m"],
  &["y", "->", "type"], &["{", "1", "}"], &["__INT_MAX__"], &["(", "x", ")", "(", "y", ")"], &["\"s\"", "__FILE__"], &["1e400"], &["0x80000000u"],
  &["#", "__VA_ARGS__"], &["__VA_ARGS__"], &["f", "(", "__VA_ARGS__", ")"],
];
const JOIN: &[&[&str]] = &[
  &[], &["+"], &["*"], &["-"], &["<"], &["=="], &["<<"], &["&"], &["="], &["+="], &[","], &["/"], &["?", "x", ":"],
];
const AROUND: &[(&[&str], &[&str])] = &[
  (&[], &[]),
  (&[], &[";"]),
  (&["("], &[")"]),
  (&["{"], &[";", "}"]),
  (&["if", "("], &[")", "x", ";", "else", "y", ";"]),
  (&["if", "(", "x", ")"], &[";", "else", "{", "y", ";", "}"]),
  (&["if", "(", "x", ")", "y", ";", "else"], &[";"]),
  (&["do"], &[";", "while", "(", "0", ")"]),
  (&["do", "{", "x", ";", "}", "while", "("], &[")", ";"]),
  (&["int", "v", "="], &[";", "v", ";"]),
  (&["T", "*", "v", "="], &[";"]),
  (&["f", "("], &[",", "1", ")"]),
  (&["-"], &[]),
  (&["!"], &[]),
  (&["~"], &[]),
  (&["*"], &[]),
  (&["&"], &[]),
  (&["++"], &[]),
  (&["(", "T", ")"], &[]),
  (&["(", "const", "char", "*", ")"], &[]),
  (&["(", "void", ")"], &[]),
  (&["x", "="], &[]),
  (&["*", "x", "="], &[]),
  (&["*", "(", "volatile", "T", "*", ")", "("], &[")", "=", "x"]),
  (&["("], &[")", "+", "1"]),
  (&["("], &[")", "->", "m", "++"]),
  (&["("], &[")", "[", "2", "]"]),
  (&["x", "?"], &[":", "1"]),
  (&[], &["?", "x", ":", "y"]),
  (&["extern", "int", "h", "(", "int", "x", ")", ";"], &[";"]),
  (&["asm", "(", "\"nop\"", ":", ":", "\"r\"", "("], &[")", ")", ";"]),
  (&["asm", "(", "\"nop\"", ":", "\"=r\"", "("], &[")", ")"]),
  (&["asm", "(", "\"nop\"", ":", "\"+r\"", "("], &[")", ":", ":", "\"memory\"", ")"]),
];

fn composed(ch: &mut Ch) -> V {
  let mode = MODES[ch.pick(MODES.len())];
  let (before, after) = AROUND[ch.pick(AROUND.len())];
  let mut body: Vec<&str> = before.to_vec();
  body.extend(ATOMS[ch.pick(ATOMS.len())]);
  let j = ch.pick(JOIN.len());
  if j > 0 {
    body.extend(JOIN[j]);
    body.extend(ATOMS[ch.pick(ATOMS.len())]);
  }
  body.extend(after);
  run(ch, mode, &body, true)
}

const HUGE: &[&str] = &[
  "0", "1", "3", "127", "0x7fffffffffffffff", "18446744073709551615u", "18446744073709551616", "170141183460469231731687303715884105727",
  "170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "1.5e308", "'\\377'",
];
const PREFIX: &[&[&str]] = &[&["-"], &["~"], &["!"], &["(", "int", ")"], &["(", "unsigned", "char", ")"], &["(", "double", ")"], &["+"], &["(", "bool", ")"]];
const BINARY: &[&str] = &["-", "*", "/", "%", "<<", ">>", "+", "&", "|", "^", "<", "=="];
const NEXT: &[(&str, &str)] = &[
  ("-", "1"), ("*", "3"), ("/", "( - 1 )"), ("%", "( - 1 )"), ("<<", "127"), ("+", "170141183460469231731687303715884105727"), ("<<", "( - 1 )"), (">>", "128"), ("-", "170141183460469231731687303715884105727"),
];

/// Calculations whose values leave every integer type.
fn arithmetic(ch: &mut Ch) -> V {
  let quick = ch.tier == Tier::Quick;
  let n = if quick { 6 } else { PREFIX.len() };
  let mut prefix = |ch: &mut Ch, max: usize| {
    let k = ch.pick(max + 1);
    (0..k).flat_map(|_| PREFIX[ch.pick(n)].iter().copied()).collect::<Vec<_>>()
  };
  let mode = [Mode::Var, Mode::Known][ch.pick(2)];
  let outer = prefix(ch, if quick { 1 } else { 2 });
  let mut body = vec!["("];
  body.extend(prefix(ch, 1));
  body.push(HUGE[ch.pick(HUGE.len())]);
  body.push(BINARY[ch.pick(BINARY.len())]);
  body.push(HUGE[ch.pick(HUGE.len())]);
  body.push(")");
  let k = ch.pick(if quick { 6 } else { NEXT.len() + 1 });
  if k > 0 {
    body.push(NEXT[k - 1].0);
    body.extend(NEXT[k - 1].1.split(' '));
  }
  let body: Vec<&str> = outer.into_iter().chain(body).collect();
  run(ch, mode, &body, false)
}

pub fn c14(t: Tier) -> Vec<Space> {
  vec![
    Space {
      name: "sequences",
      bounds: format!("every sequence of up to {} of {} tokens, as variable-like, function-like, fully typed and variadic macro", t.q(3, 4), ALPHABET.len()),
      f: |ch| soup_short(ch, false),
    },
    Space {
      name: "longer",
      bounds: format!("every sequence of {} of {REDUCED} tokens, fully typed and variadic", t.q(4, 5)),
      f: |ch| soup_long(ch, false),
    },
    Space {
      name: "frames",
      bounds: format!("{} constructs with every sequence of up to {} tokens inside, in 4 kinds of macro", FRAMES.len(), t.q(2, 3)),
      f: |ch| framed(ch, false),
    },
    Space {
      name: "nesting",
      bounds: format!("{} ways to nest{}, 1 to 255 levels, in 4 kinds of macro", NESTS.len(), t.q("", " and every pair of them alternating")),
      f: |ch| nested(ch, false),
    },
    Space {
      name: "arithmetic",
      bounds: format!("every operation of {} operators on {} literals up to 2^128 with up to one unary operator or cast on the first, up to {} around it, and one of {} operations on the result", BINARY.len(), HUGE.len(), t.q(1, 2), t.q(5, NEXT.len())),
      f: arithmetic,
    },
    Space { name: "chains", bounds: "8 kinds of chains and circles of up to 40 macros".into(), f: chains },
    Space { name: "names", bounds: "16 odd names as macro name and as parameters, and as types".into(), f: odd_names },
  ]
}

pub fn c13(t: Tier) -> Vec<Space> {
  vec![
    Space {
      name: "composed",
      bounds: format!("{} surroundings of every pair of {} operands joined by {} operators, in 4 kinds of macro", AROUND.len(), ATOMS.len(), JOIN.len()),
      f: composed,
    },
    Space {
      name: "sequences",
      bounds: format!("every sequence of up to {} of {} tokens, as variable-like, function-like, fully typed and variadic macro", t.q(3, 4), ALPHABET.len()),
      f: |ch| soup_short(ch, true),
    },
    Space {
      name: "longer",
      bounds: format!("every sequence of {} of {REDUCED} tokens, fully typed and variadic", t.q(4, 5)),
      f: |ch| soup_long(ch, true),
    },
    Space {
      name: "frames",
      bounds: format!("{} constructs with every sequence of up to {} tokens inside, in 4 kinds of macro", FRAMES.len(), t.q(2, 3)),
      f: |ch| framed(ch, true),
    },
    Space {
      name: "nesting",
      bounds: format!("{} ways to nest{}, 1 to 255 levels, in 4 kinds of macro", NESTS.len(), t.q("", " and every pair of them alternating")),
      f: |ch| nested(ch, true),
    },
  ]
}
