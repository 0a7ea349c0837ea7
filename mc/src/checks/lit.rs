//! C07, C08, C23: literals and token classification.

use crate::engine::*;
use crate::reflit::*;
use cmacro::{BuiltInType, ExpansionError, Lit, LitChar, LitFloat, LitInt, LitString, MacroSet, MacroToken, Punctuation};

pub fn c07(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "texts", bounds: format!("every text of 1..={} characters over 0 1 7 8 9 a F x X b u U l L z . e", t.q(5, 6)), f: c07_texts },
    Space { name: "suffixes", bounds: "every suffix text of up to 4 characters over u U l L z Z f after 6 digit texts".into(), f: c07_suffixes },
    Space { name: "magnitudes", bounds: "2^k-1, 2^k, 2^k+1 for every k up to 128, in 4 bases, 0..2 leading zeros, 9 suffixes".into(), f: c07_magnitudes },
  ]
}

fn suf(s: ISuf) -> Option<BuiltInType> {
  Some(match s {
    ISuf::None => return None,
    ISuf::U => BuiltInType::UInt,
    ISuf::L => BuiltInType::Long,
    ISuf::UL => BuiltInType::ULong,
    ISuf::LL => BuiltInType::LongLong,
    ISuf::ULL => BuiltInType::ULongLong,
    ISuf::Z => BuiltInType::SSizeT,
    ISuf::UZ => BuiltInType::SizeT,
  })
}

fn want_int(s: &str) -> Option<LitInt> {
  int(s).map(|(v, x)| LitInt { value: v as i128, suffix: suf(x) })
}

fn check_int(ch: &mut Ch, s: String) -> V {
  ch.note(format!("{s:?}"));
  let want = want_int(&s);
  let got = match guard(|| (LitInt::try_from(s.as_str()).ok(), Lit::try_from(s.as_str()).map(|l| l.clone()).ok())) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  if got.0 != want {
    return V::Fail(format!("LitInt: {:?}\nC:      {want:?}", got.0));
  }
  let as_lit = match &got.1 {
    Some(Lit::Int(i)) => Some(*i),
    _ => None,
  };
  if as_lit != want {
    return V::Fail(format!("Lit: {:?}\nC:   {want:?}", got.1));
  }
  // Through a macro: the value reaches the generated code.
  if let Some(w) = want {
    let r = guard(|| {
      let mut m = MacroSet::new();
      m.define_var_macro("M", [s.as_str()]);
      m.expand_var_macro("M").map(|t| t == vec![MacroToken::Lit(Lit::Int(w))]).unwrap_or(false)
    });
    match r {
      Ok(true) => {},
      Ok(false) => return V::Fail("expanding a macro with this literal gives another token".into()),
      Err(p) => return V::Fail(p),
    }
  }
  V::Ok(h(&format!("{want:?}")))
}

fn text(ch: &mut Ch, alpha: &[&str], min: usize, max: usize) -> String {
  let n = min + ch.pick(max - min + 1);
  (0..n).map(|_| ch.of(alpha)).collect()
}

fn c07_texts(ch: &mut Ch) -> V {
  let n = ch.tier.q(5, 6);
  let s = text(ch, &["0", "1", "7", "8", "9", "a", "F", "x", "X", "b", "u", "U", "l", "L", "z", ".", "e"], 1, n);
  check_int(ch, s)
}

fn c07_suffixes(ch: &mut Ch) -> V {
  let d = ch.of(&["0", "1", "017", "0x1f", "0b10", "4294967296", "0X0", "0B1", "09", "0xg"]);
  let s = format!("{d}{}", text(ch, &["u", "U", "l", "L", "z", "Z", "f"], 0, 4));
  check_int(ch, s)
}

fn c07_magnitudes(ch: &mut Ch) -> V {
  let k = ch.pick(129);
  let d = ch.pick(3);
  // 2^k - 1, 2^k, 2^k + 1 as digit strings, beyond 128 bits too.
  let mut bits: Vec<u8> = vec![0; 130];
  match d {
    0 => bits[..k].fill(1),
    1 => bits[k] = 1,
    _ => {
      bits[k] += 1;
      bits[0] += 1;
      if bits[0] == 2 {
        bits[0] = 0;
        bits[1] += 1;
      }
    },
  }
  let base = [2u32, 8, 10, 16][ch.pick(4)];
  let mut digits: Vec<u32> = vec![0];
  for b in bits.iter().rev() {
    let mut carry = *b as u32;
    for x in digits.iter_mut() {
      let v = *x * 2 + carry;
      *x = v % base;
      carry = v / base;
    }
    if carry > 0 {
      digits.push(carry);
    }
  }
  let txt: String = digits.iter().rev().map(|d| char::from_digit(*d, 16).unwrap()).collect();
  let txt = if ch.flag() { txt.to_uppercase() } else { txt };
  let zeros = "0".repeat(if base == 10 { 0 } else { ch.pick(3) });
  let p = match base {
    2 => ch.of(&["0b", "0B"]),
    8 => "0",
    16 => ch.of(&["0x", "0X"]),
    _ => "",
  };
  let s = ch.of(&["", "u", "L", "ul", "LLU", "ll", "uz", "lul", "lL"]);
  check_int(ch, format!("{p}{zeros}{txt}{s}"))
}

// ---------------------------------------------------------------- C08

pub fn c08(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "literals", bounds: format!("5 prefixes, both quotes, every sequence of up to {} of {} characters and escapes", t.q(3, 4), PIECES.len()), f: c08_lits },
    Space { name: "octal", bounds: "every octal escape text of 1..=4 digits, all prefixes and quotes, followed by 4 characters".into(), f: c08_octal },
    Space { name: "hex", bounds: "every hexadecimal escape of 0..=3 digits over 0 1 7 8 f F g, and longer boundary ones, all prefixes and quotes".into(), f: c08_hex },
    Space { name: "unicode", bounds: "every boundary code point (all lengths of UTF-8 and UTF-16, surrogates, beyond U+10FFFF) written raw and as both universal forms, after and before a character".into(), f: c08_unicode },
    Space { name: "bytes", bounds: "every ASCII character, and every two-character pair of the special ones, raw and after a backslash".into(), f: c08_ascii },
  ]
}

const PIECES: &[&str] = &[
  "a", "0", "8", "f", "g", "\"", "'", " ", "?", "é", "猫", "🍌", "\\", "\n", "u", "x", "\\n", "\\\\", "\\'", "\\\"", "\\0", "\\12", "\\377", "\\400", "\\x", "\\x4", "\\xff", "\\x100", "\\xffff",
  "\\x10000", "\\xffffffff", "\\x100000000", "\\u00e9", "\\u732b", "\\U0001F34C", "\\U00110000", "\\u12", "\\q", "\\X41", "\\a",
];
const PRE: &[&str] = &["", "u8", "u", "U", "L"];

fn check_quoted(ch: &mut Ch, s: String) -> V {
  ch.note(format!("{s:?}"));
  let got = match guard(|| {
    (
      LitChar::try_from(s.as_str()).ok(),
      LitString::try_from(s.as_str()).ok().map(|l| units(&l)),
      Lit::try_from(s.as_str()).ok().map(|l| match l {
        Lit::Char(c) => Ok(c),
        Lit::String(s) => Err(Some(units(&s))),
        _ => Err(None),
      }),
    )
  }) {
    Ok(g) => g,
    Err(p) => return V::Fail(p),
  };
  let wc = chr(&s);
  let ws = string(&s);
  let got_c = got.0.as_ref().map(char_val);
  let mut skip = None;
  match &wc {
    R::Good(w) if got_c != Some(*w) => return V::Fail(format!("LitChar: {:?}\nC:       {w:?}", got.0)),
    R::Bad if got.0.is_some() => return V::Fail(format!("LitChar: {:?}\nC:       no character constant", got.0)),
    R::Open(r) => skip = Some(*r),
    _ => {},
  }
  match &ws {
    R::Good(w) => match &got.1 {
      Some(g) if g == w => {},
      None if !representable(w) => {},
      g => return V::Fail(format!("LitString: {g:?}\nC:         {w:?}")),
    },
    R::Bad if got.1.is_some() => return V::Fail(format!("LitString: {:?}\nC:         no string literal", got.1)),
    R::Open(r) => skip = Some(*r),
    _ => {},
  }
  match &got.2 {
    None if got.0.is_none() && got.1.is_none() => {},
    Some(Ok(c)) if got.0.as_ref() == Some(c) => {},
    Some(Err(Some(u))) if got.1.as_ref() == Some(u) => {},
    g => return V::Fail(format!("Lit: {g:?} but LitChar: {:?}, LitString: {:?}", got.0, got.1)),
  }
  match skip {
    Some(r) => V::Skip(r),
    None => V::Ok(h(&format!("{wc:?}{ws:?}"))),
  }
}

fn char_val(c: &LitChar) -> (Enc, u32) {
  match c {
    LitChar::Ordinary(c) => (Enc::Plain, *c as u32),
    LitChar::Utf8(c) => (Enc::U8, *c as u32),
    LitChar::Utf16(c) => (Enc::U16, *c as u32),
    LitChar::Utf32(c) => (Enc::U32, *c),
    LitChar::Wide(c) => (Enc::Wide, *c),
  }
}

pub fn units(s: &LitString) -> (Enc, Vec<u32>) {
  match s {
    LitString::Ordinary(b) => (Enc::Plain, b.iter().map(|b| *b as u32).collect()),
    LitString::Utf8(s) => (Enc::U8, s.bytes().map(u32::from).collect()),
    LitString::Utf16(s) => (Enc::U16, s.encode_utf16().map(u32::from).collect()),
    LitString::Utf32(s) => (Enc::U32, s.chars().map(u32::from).collect()),
    LitString::Wide(w) => (Enc::Wide, w.clone()),
  }
}

/// Prefixed strings are kept as Unicode text: units that are no valid text have no representation and are rejected.
pub fn representable((e, u): &(Enc, Vec<u32>)) -> bool {
  match e {
    Enc::U8 => String::from_utf8(u.iter().map(|b| *b as u8).collect()).is_ok(),
    Enc::U16 => String::from_utf16(&u.iter().map(|b| *b as u16).collect::<Vec<_>>()).is_ok(),
    Enc::U32 => u.iter().all(|c| char::from_u32(*c).is_some()),
    _ => true,
  }
}

fn c08_lits(ch: &mut Ch) -> V {
  let p = ch.of(PRE);
  let q = ch.of(&["\"", "'"]);
  let n = ch.tier.q(3, 4);
  let b = text(ch, PIECES, 0, n);
  check_quoted(ch, format!("{p}{q}{b}{q}"))
}

fn c08_octal(ch: &mut Ch) -> V {
  let p = ch.of(PRE);
  let q = ch.of(&["\"", "'"]);
  let b = text(ch, &["0", "1", "3", "4", "7", "8"], 1, 4);
  let f = ch.of(&["", "a", "7", "\\0"]);
  check_quoted(ch, format!("{p}{q}\\{b}{f}{q}"))
}

fn c08_hex(ch: &mut Ch) -> V {
  let p = ch.of(PRE);
  let q = ch.of(&["\"", "'"]);
  let b = if ch.flag() {
    text(ch, &["0", "1", "7", "8", "f", "F", "g"], 0, 3)
  } else {
    ch.of(&["00", "000041", "0fff", "ffff", "10000", "d800", "D83C", "10ffff", "110000", "7fffffff", "80000000", "ffffffff", "00000000ffffffff", "100000000", "ffffffffffffffffff", "10000000000000041"]).to_string()
  };
  let f = ch.of(&["", "a", "z", "\\x41", "\\u00e9", " "]);
  check_quoted(ch, format!("{p}{q}\\x{b}{f}{q}"))
}

fn c08_unicode(ch: &mut Ch) -> V {
  let p = ch.of(PRE);
  let q = ch.of(&["\"", "'"]);
  let cps = [0x24, 0x40, 0x60, 0x7f, 0x80, 0x9f, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1f34c, 0x10ffff, 0x110000, 0xffffffffu32, 0x41, 0];
  let cp = cps[ch.pick(cps.len())];
  let w = match ch.pick(5) {
    0 => match char::from_u32(cp) {
      Some(c) if c != '\0' => c.to_string(),
      _ => return V::Skip("no such character"),
    },
    1 if cp <= 0xffff => format!("\\u{cp:04x}"),
    1 => return V::Skip("no such universal character name"),
    2 => format!("\\U{cp:08X}"),
    3 => format!("\\u{cp:03x}"),
    _ => format!("\\U{cp:06X}"),
  };
  let (a, b) = (ch.of(&["", "a", "0", "é", "\\xff"]), ch.of(&["", "a", "0", "é", "\\0"]));
  check_quoted(ch, format!("{p}{q}{a}{w}{b}{q}"))
}

fn c08_ascii(ch: &mut Ch) -> V {
  let p = ch.of(PRE);
  let q = ch.of(&["\"", "'"]);
  let c = (1 + ch.pick(127)) as u8 as char;
  let b = match ch.pick(4) {
    0 => format!("{c}"),
    1 => format!("\\{c}"),
    2 => format!("{c}{}", ch.of(&["\\", "\"", "'", "?", "1"])),
    _ => format!("\\{c}{}", ch.of(&["\\", "\"", "'", "?", "1"])),
  };
  check_quoted(ch, format!("{p}{q}{b}{q}"))
}

// ---------------------------------------------------------------- C23

pub fn c23(t: Tier) -> Vec<Space> {
  vec![
    Space { name: "texts", bounds: format!("every text of 1..={} characters over letters, digits, . _ quotes, operators, backslash, é and a combining accent", t.q(4, 5)), f: c23_texts },
    Space { name: "operators", bounds: "every text of 1..=4 characters over the characters of the C punctuators".into(), f: c23_ops },
    Space { name: "identifiers", bounds: "every identifier text of up to 4 elements over letters, digits, Unicode letters and both universal forms".into(), f: c23_ids },
    Space { name: "continuations", bounds: format!("every text of up to {} elements of identifiers, universal character names, incomplete ones and others as the rest of an identifier", t.q(4, 5)), f: c23_continuations },
    Space { name: "comments", bounds: "every text of up to 7 characters over / * a blank and newline".into(), f: c23_comments },
    Space { name: "numbers", bounds: format!("every text of 1..={} characters over 0 1 9 . e E + - f L u x _", t.q(5, 6)), f: c23_numbers },
  ]
}

fn classify(s: &str) -> R<Option<MacroToken<'static>>> {
  let s: &'static str = Box::leak(s.to_string().into_boxed_str());
  let r = classify_in(s);
  r
}

fn classify_in(s: &'static str) -> R<Option<MacroToken<'static>>> {
  if let Some(n) = ident(s) {
    let n: &'static str = Box::leak(n.into_boxed_str());
    return R::Good(cmacro::Identifier::try_from(n).ok().map(MacroToken::from));
  }
  if let Some(i) = want_int(s) {
    return R::Good(Some(MacroToken::Lit(Lit::Int(i))));
  }
  if let Some((d, f)) = float(s) {
    let d = if let Some(r) = d.strip_prefix('.') { format!("0.{r}") } else { d.to_string() };
    return R::Good(Some(MacroToken::Lit(Lit::Float(match f {
      FSuf::F => LitFloat::Float(d.parse().unwrap()),
      FSuf::L => LitFloat::LongDouble(d.parse().unwrap()),
      FSuf::None => LitFloat::Double(d.parse().unwrap()),
    }))));
  }
  match chr(s) {
    R::Good((e, c)) => {
      return R::Good(Some(MacroToken::Lit(Lit::Char(match e {
        Enc::Plain => LitChar::Ordinary(c as u8),
        Enc::U8 => LitChar::Utf8(c as u8),
        Enc::U16 => LitChar::Utf16(c as u16),
        Enc::U32 => LitChar::Utf32(c),
        Enc::Wide => LitChar::Wide(c),
      }))))
    },
    R::Open(r) => return R::Open(r),
    R::Bad => {},
  }
  match string(s) {
    R::Good(w) => {
      if !representable(&w) {
        return R::Good(None);
      }
      let (e, u) = w;
      let by = || u.iter().map(|b| *b as u8).collect::<Vec<u8>>();
      return R::Good(Some(MacroToken::Lit(Lit::String(match e {
        Enc::Plain => LitString::Ordinary(by().into()),
        Enc::U8 => LitString::Utf8(String::from_utf8(by()).unwrap().into()),
        Enc::U16 => LitString::Utf16(String::from_utf16(&u.iter().map(|b| *b as u16).collect::<Vec<_>>()).unwrap().into()),
        Enc::U32 => LitString::Utf32(u.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>().into()),
        Enc::Wide => LitString::Wide(u),
      }))));
    },
    R::Open(r) => return R::Open(r),
    R::Bad => {},
  }
  if crate::refpp::PUNCTS.contains(&s) {
    return R::Good(Punctuation::try_from(s).ok().map(MacroToken::from));
  }
  if s.starts_with("//") {
    if s.contains('\n') {
      return R::Open("newline inside one token");
    }
    return R::Good(cmacro::Comment::try_from(s).ok().map(MacroToken::from));
  }
  if s.len() >= 4 && s.starts_with("/*") && s.find("*/").is_some() && s[2..].find("*/") == Some(s.len() - 4) {
    return R::Good(cmacro::Comment::try_from(s).ok().map(MacroToken::from));
  }
  // Identifier characters that do not begin an identifier (e.g. the number `1x`) are kept for pasting.
  let cs: Vec<char> = s.chars().collect();
  if !s.is_empty() && cs.iter().all(|c| *c == '_' || c.is_alphanumeric() || ('\u{300}'..='\u{36f}').contains(c)) {
    return R::Good(cmacro::IdentifierContinue::try_from(s).ok().map(MacroToken::from));
  }
  if s.contains('\\') && !s.contains(['\'', '"']) && s.starts_with(|c: char| c == '\\' || c.is_alphanumeric() || c == '\u{301}') {
    return R::Open("universal character names that continue an identifier");
  }
  R::Good(None)
}

fn check_class(ch: &mut Ch, s: String) -> V {
  ch.note(format!("{s:?}"));
  if s == "##" || s == "__VA_ARGS__" {
    return V::Skip("an operator of macro bodies");
  }
  let want = classify(&s);
  let want = match want {
    R::Good(w) => w,
    R::Bad => None,
    R::Open(r) => return V::Skip(r),
  };
  let r = guard(|| {
    let mut m = MacroSet::new();
    m.define_var_macro("MACRO", [s.as_str()]);
    let r = match m.expand_var_macro("MACRO") {
      Ok(t) => Ok(t.len() == 1 && Some(&t[0]) == want.as_ref()),
      Err(ExpansionError::InvalidToken(t)) => Err(t == s),
      Err(e) => return Err(format!("{e:?}")),
    };
    let e = m.expand(&[s.as_str()]).is_ok();
    // The spelling as a parameter name, too.
    m.define_fn_macro("F", [s.as_str()], [] as [&str; 0]);
    let p = m.expand_fn_macro("F").is_ok();
    let show = format!("{:?}", m.expand_var_macro("MACRO"));
    Ok((r, e, p, show))
  });
  let is_id = matches!(want, Some(MacroToken::Identifier(_)));
  match r {
    Err(p) => V::Fail(p),
    Ok(Err(e)) => V::Fail(format!("error {e}")),
    Ok(Ok((r, e, p, show))) => {
      let ok = match (&want, r) {
        (Some(_), Ok(true)) => e,
        (None, Err(true)) => !e,
        _ => false,
      };
      if !ok {
        return V::Fail(format!("crate: {show}\nC:     {want:?}"));
      }
      let named = is_id || s == "..." || matches!(want, Some(MacroToken::Comment(_)));
      if p != named {
        return V::Fail(format!("accepted as a parameter: {p}, C: {named}"));
      }
      V::Ok(h(&show))
    },
  }
}

fn c23_texts(ch: &mut Ch) -> V {
  let n = ch.tier.q(4, 5);
  let s = text(ch, &["a", "u", "8", "0", "x", "_", ".", "e", "L", "\"", "'", "\\", "+", "-", "<", "%", ":", "#", "/", "*", "é", "\u{301}", " ", "$", "@"], 1, n);
  check_class(ch, s)
}
fn c23_ops(ch: &mut Ch) -> V {
  let s = text(ch, &["+", "-", "*", "/", "%", "<", ">", "=", "!", "&", "|", "^", "~", "?", ":", ";", ",", ".", "#", "(", ")", "[", "]", "{", "}"], 1, 4);
  check_class(ch, s)
}
fn c23_ids(ch: &mut Ch) -> V {
  let s = text(ch, &["a", "Z", "_", "9", "é", "Ж", "猫", "\u{301}", "\\u00e9", "\\u0401", "\\U0000732B", "\\u0301", "\\u0030", "\\u12", "\\U0001"], 1, 4);
  check_class(ch, s)
}
/// The part of an identifier which follows its first character, with universal character names resolved.
fn c23_continuations(ch: &mut Ch) -> V {
  const ELEMENTS: &[(&str, Option<&str>)] = &[
    ("a", Some("a")),
    ("_", Some("_")),
    ("9", Some("9")),
    ("é", Some("é")),
    ("\u{301}", Some("\u{301}")),
    ("\\u00e9", Some("é")),
    ("\\u0401", Some("Ё")),
    ("\\U0000732B", Some("猫")),
    ("\\u0301", Some("\u{301}")),
    ("\\u00d7", None),
    ("\\u12", None),
    ("\\", None),
    (".", None),
  ];
  let n = 1 + ch.pick(ch.tier.q(4, 5));
  let parts: Vec<_> = (0..n).map(|_| ELEMENTS[ch.pick(ELEMENTS.len())]).collect();
  let text: String = parts.iter().map(|p| p.0).collect();
  // The digits of a short name may follow it.
  if text.contains("\\u129") || text.contains("\\u12a") {
    return V::Skip("a short universal character name followed by digits");
  }
  let want: Option<String> = parts.iter().map(|p| p.1).collect();
  ch.note(format!("continuation {text}"));
  ch.model_steps += n as u64;
  let got = match guard(|| cmacro::IdentifierContinue::try_from(text.as_str()).ok().map(|i| i.as_str().to_string())) {
    Ok(got) => got,
    Err(e) => return V::Fail(e),
  };
  if got != want {
    return V::Fail(format!("expected {want:?}, got {got:?}"));
  }
  V::Ok(h(&format!("{got:?}")))
}
fn c23_comments(ch: &mut Ch) -> V {
  let s = text(ch, &["/", "*", "a", " ", "\n"], 1, 7);
  check_class(ch, s)
}
fn c23_numbers(ch: &mut Ch) -> V {
  let n = ch.tier.q(5, 6);
  let s = text(ch, &["0", "1", "9", ".", "e", "E", "+", "-", "f", "L", "u", "x", "_"], 1, n);
  check_class(ch, s)
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
  match id {
    "C07" => vec!["values above the 128-bit limit have no C type and count as no literal; the `z` suffixes are those of C++23"],
    "C08" => vec!["execution character set UTF-8 and 32-bit wchar_t; multi-character constants, raw non-ASCII ordinary character constants and universal names of basic characters or surrogates are outside the domain", "prefixed strings whose units are no Unicode text cannot be represented by the crate's types: they must be rejected, not changed"],
    _ => vec!["a line splice inside one token is outside the domain"],
  }
}
