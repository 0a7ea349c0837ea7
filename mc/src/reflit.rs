//! Reference lexer for C literals and tokens, written from C17 5.1.1.2, 6.4 (execution character set UTF-8,
//! 32-bit wchar_t).

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
  Plain,
  U8,
  U16,
  U32,
  Wide,
}

#[derive(Clone, PartialEq, Debug)]
pub enum R<T> {
  Good(T),
  /// Not a literal in C.
  Bad,
  /// C leaves it to the implementation (or forbids it without giving a value).
  Open(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Elem {
  Ch(char),
  Unit(u64),
  Ucn(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ISuf {
  None,
  U,
  L,
  UL,
  LL,
  ULL,
  Z,
  UZ,
}

/// Value and suffix of an integer constant.
pub fn int(s: &str) -> Option<(u128, ISuf)> {
  let b = s.as_bytes();
  let (base, mut i) = if b.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'x' {
    (16u128, 2)
  } else if b.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'b' {
    (2, 2)
  } else if b.first() == Some(&b'0') {
    (8, 0)
  } else {
    (10, 0)
  };
  let start = i;
  let mut v: u128 = 0;
  while i < b.len() {
    let d = match b[i] {
      c @ b'0'..=b'9' => c - b'0',
      c @ b'a'..=b'f' => c - b'a' + 10,
      c @ b'A'..=b'F' => c - b'A' + 10,
      _ => break,
    } as u128;
    if d >= base {
      break;
    }
    v = v.checked_mul(base)?.checked_add(d)?;
    i += 1;
  }
  if i == start {
    return None;
  }
  let suf = match &s[i..] {
    "" => ISuf::None,
    "u" | "U" => ISuf::U,
    "l" | "L" => ISuf::L,
    "ll" | "LL" => ISuf::LL,
    "ul" | "uL" | "Ul" | "UL" | "lu" | "lU" | "Lu" | "LU" => ISuf::UL,
    "ull" | "uLL" | "Ull" | "ULL" | "llu" | "llU" | "LLu" | "LLU" => ISuf::ULL,
    "z" | "Z" => ISuf::Z,
    "uz" | "uZ" | "Uz" | "UZ" | "zu" | "zU" | "Zu" | "ZU" => ISuf::UZ,
    _ => return None,
  };
  if v > i128::MAX as u128 {
    return None;
  }
  Some((v, suf))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FSuf {
  None,
  F,
  L,
}

/// The digits-only text and the suffix of a decimal floating constant.
pub fn float(s: &str) -> Option<(&str, FSuf)> {
  let (t, suf) = match s.as_bytes().last()? {
    b'f' | b'F' => (&s[..s.len() - 1], FSuf::F),
    b'l' | b'L' => (&s[..s.len() - 1], FSuf::L),
    _ => (s, FSuf::None),
  };
  let b = t.as_bytes();
  let mut i = 0;
  let digits = |i: &mut usize| {
    let s = *i;
    while *i < b.len() && b[*i].is_ascii_digit() {
      *i += 1;
    }
    *i - s
  };
  let a = digits(&mut i);
  let mut dot = false;
  let mut f = 0;
  if b.get(i) == Some(&b'.') {
    dot = true;
    i += 1;
    f = digits(&mut i);
  }
  if a + f == 0 {
    return None;
  }
  let mut exp = false;
  if matches!(b.get(i), Some(b'e' | b'E')) {
    exp = true;
    i += 1;
    if matches!(b.get(i), Some(b'+' | b'-')) {
      i += 1;
    }
    if digits(&mut i) == 0 {
      return None;
    }
  }
  (i == b.len() && (dot || exp)).then_some((t, suf))
}

fn prefix(s: &str) -> (Enc, &str) {
  if let Some(r) = s.strip_prefix("u8") {
    (Enc::U8, r)
  } else if let Some(r) = s.strip_prefix('u') {
    (Enc::U16, r)
  } else if let Some(r) = s.strip_prefix('U') {
    (Enc::U32, r)
  } else if let Some(r) = s.strip_prefix('L') {
    (Enc::Wide, r)
  } else {
    (Enc::Plain, s)
  }
}

/// Split the text of a quoted literal into characters and escapes.
fn elems(s: &str, quote: char) -> R<Vec<Elem>> {
  let cs: Vec<char> = s.chars().collect();
  if cs.len() < 2 || cs[0] != quote {
    return R::Bad;
  }
  let mut out = vec![];
  let mut i = 1;
  loop {
    let Some(&c) = cs.get(i) else { return R::Bad };
    i += 1;
    if c == quote {
      return if i == cs.len() { R::Good(out) } else { R::Bad };
    }
    if c == '\n' {
      return R::Bad;
    }
    if c != '\\' {
      out.push(Elem::Ch(c));
      continue;
    }
    let Some(&e) = cs.get(i) else { return R::Bad };
    i += 1;
    let simple = match e {
      '\'' | '"' | '?' | '\\' => Some(e as u64),
      'a' => Some(7),
      'b' => Some(8),
      'f' => Some(12),
      'n' => Some(10),
      'r' => Some(13),
      't' => Some(9),
      'v' => Some(11),
      _ => None,
    };
    if let Some(v) = simple {
      out.push(Elem::Unit(v));
      continue;
    }
    match e {
      '0'..='7' => {
        let mut v = e as u64 - 48;
        let mut n = 1;
        while n < 3 && matches!(cs.get(i), Some('0'..='7')) {
          v = v * 8 + (cs[i] as u64 - 48);
          i += 1;
          n += 1;
        }
        out.push(Elem::Unit(v));
      },
      'x' => {
        let mut v = 0u64;
        let mut n = 0;
        while let Some(d) = cs.get(i).and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None }) {
          v = (v << 4 | d as u64).min(1 << 50);
          i += 1;
          n += 1;
        }
        if n == 0 {
          return R::Bad;
        }
        out.push(Elem::Unit(v));
      },
      'u' | 'U' => {
        let n = if e == 'u' { 4 } else { 8 };
        let mut v = 0u64;
        for _ in 0..n {
          let Some(d) = cs.get(i).and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None }) else { return R::Bad };
          v = v << 4 | d as u64;
          i += 1;
        }
        if v > 0x10ffff {
          return R::Bad;
        }
        out.push(Elem::Ucn(v as u32));
      },
      'e' => return R::Open("\\e is an extension"),
      _ => return R::Bad,
    }
  }
}

/// Encoding and code units of a string literal.
pub fn string(s: &str) -> R<(Enc, Vec<u32>)> {
  let (enc, r) = prefix(s);
  let es = match elems(r, '"') {
    R::Good(e) => e,
    R::Bad => return R::Bad,
    R::Open(r) => return R::Open(r),
  };
  let mut out = vec![];
  let mut open = None;
  for e in es {
    let c = match e {
      Elem::Unit(v) => {
        let max = match enc {
          Enc::Plain | Enc::U8 => 0xff,
          Enc::U16 => 0xffff,
          _ => 0xffff_ffff,
        };
        if v > max {
          return R::Bad;
        }
        out.push(v as u32);
        continue;
      },
      Elem::Ch(c) => c,
      Elem::Ucn(v) => {
        if v < 0xa0 && !matches!(v, 0x24 | 0x40 | 0x60) {
          open = Some("universal character name of a basic character");
        }
        match char::from_u32(v) {
          Some(c) => c,
          None => {
            open = Some("universal character name of a surrogate");
            continue;
          },
        }
      },
    };
    match enc {
      Enc::Plain | Enc::U8 => out.extend(c.encode_utf8(&mut [0; 4]).bytes().map(u32::from)),
      Enc::U16 => out.extend(c.encode_utf16(&mut [0; 2]).iter().map(|w| *w as u32)),
      _ => out.push(c as u32),
    }
  }
  match open {
    Some(r) => R::Open(r),
    None => R::Good((enc, out)),
  }
}

/// Encoding and value of a character constant.
pub fn chr(s: &str) -> R<(Enc, u32)> {
  let (enc, r) = prefix(s);
  let es = match elems(r, '\'') {
    R::Good(e) => e,
    R::Bad => return R::Bad,
    R::Open(r) => return R::Open(r),
  };
  if es.is_empty() {
    return R::Bad;
  }
  if es.len() > 1 {
    return R::Open("multi-character constant");
  }
  let c = match es[0] {
    Elem::Unit(v) => {
      let max = match enc {
        Enc::Plain | Enc::U8 => 0xff,
        Enc::U16 => 0xffff,
        _ => 0xffff_ffff,
      };
      return if v > max { R::Bad } else { R::Good((enc, v as u32)) };
    },
    Elem::Ch(c) => c as u32,
    Elem::Ucn(v) => {
      if v < 0xa0 && !matches!(v, 0x24 | 0x40 | 0x60) {
        return R::Open("universal character name of a basic character");
      }
      if char::from_u32(v).is_none() {
        return R::Open("universal character name of a surrogate");
      }
      v
    },
  };
  match enc {
    Enc::Plain if c > 0x7f => R::Open("multibyte character in an ordinary character constant"),
    Enc::U8 if c > 0x7f => R::Bad,
    Enc::U16 if c > 0xffff => R::Bad,
    _ => R::Good((enc, c)),
  }
}

/// The name an identifier spelling denotes (universal character names decoded).
pub fn ident(s: &str) -> Option<String> {
  let cs: Vec<char> = s.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < cs.len() {
    let c = if cs[i] == '\\' {
      let n = match cs.get(i + 1)? {
        'u' => 4,
        'U' => 8,
        _ => return None,
      };
      let t: String = cs.get(i + 2..i + 2 + n)?.iter().collect();
      if !t.chars().all(|c| c.is_ascii_hexdigit()) {
        return None;
      }
      i += 2 + n;
      char::from_u32(u32::from_str_radix(&t, 16).ok()?)?
    } else {
      i += 1;
      cs[i - 1]
    };
    out.push(c);
  }
  let mut it = out.chars();
  let f = it.next()?;
  // Letters of all scripts begin an identifier; digits and combining marks only continue one.
  ((f == '_' || f.is_alphabetic()) && it.all(|c| c == '_' || c.is_alphanumeric() || ('\u{300}'..='\u{36f}').contains(&c))).then_some(out)
}
