//! Stateless exhaustive explorer.
//!
//! A *space* is a deterministic function that asks the explorer for every decision it makes
//! (`Ch::pick`). The explorer walks the whole decision tree depth first; every leaf is one case that
//! has been executed on the real crate and compared with the reference model.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  pub fn q<T>(self, quick: T, thorough: T) -> T {
    match self {
      Tier::Quick => quick,
      Tier::Thorough => thorough,
    }
  }
}

pub enum V {
  /// Property held; the payload identifies the observed outcome (to detect vacuous spaces).
  Ok(u64),
  /// Outside the property's domain (reason).
  Skip(&'static str),
  /// Property violated.
  Fail(String),
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
  let mut s = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut s);
  s.finish()
}

pub struct Ch {
  forced: Vec<u32>,
  pub taken: Vec<u32>,
  pub widths: Vec<u32>,
  pub tier: Tier,
  pub describe_only: bool,
  pub note: String,
  /// Steps of the reference model taken in this case.
  pub model_steps: u64,
}

pub const DIVERGED: &str = "engine: replay diverged from the recorded choices";

impl Ch {
  pub fn new(forced: Vec<u32>, tier: Tier) -> Self {
    Self { forced, taken: vec![], widths: vec![], tier, describe_only: false, note: String::new(), model_steps: 0 }
  }
  pub fn pick(&mut self, n: usize) -> usize {
    assert!(n > 0, "engine: empty choice");
    let pos = self.taken.len();
    let c = self.forced.get(pos).copied().unwrap_or(0);
    if c as usize >= n {
      eprintln!("{DIVERGED}: position {pos} choice {c} of {n}");
      std::process::exit(2);
    }
    self.taken.push(c);
    self.widths.push(n as u32);
    c as usize
  }
  pub fn of<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
    let i = self.pick(xs.len());
    xs[i]
  }
  pub fn flag(&mut self) -> bool {
    self.pick(2) == 1
  }
  /// Record the human-readable case; call before touching the implementation.
  pub fn note(&mut self, s: impl Into<String>) {
    self.note = s.into();
    if self.describe_only {
      println!("{}", self.note);
      std::process::exit(0);
    }
  }
}

pub struct Space {
  pub name: &'static str,
  pub bounds: String,
  pub f: fn(&mut Ch) -> V,
}

thread_local! {
  static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{loc}]")));
  }));
}

/// Run implementation code; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
    format!("PANIC: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
  })
}

pub fn run_case(space: &Space, forced: Vec<u32>, tier: Tier) -> (Ch, V) {
  let mut ch = Ch::new(forced, tier);
  let r = catch_unwind(AssertUnwindSafe(|| (space.f)(&mut ch)));
  let v = match r {
    Ok(v) => v,
    Err(_) => V::Fail(format!("panic while checking the case: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
  };
  (ch, v)
}

#[derive(Default)]
pub struct Stats {
  pub cases: u64,
  pub checked: u64,
  pub states: u64,
  pub transitions: u64,
  pub model_steps: u64,
  pub max_depth: u64,
  pub outcomes: HashSet<u64>,
  pub skips: BTreeMap<&'static str, u64>,
  pub samples: Vec<String>,
  pub fails: u64,
  pub capped: bool,
}

pub fn esc(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      '\r' => o.push_str("\\r"),
      c => o.push(c),
    }
  }
  o
}
pub fn unesc(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\\' {
      match it.next() {
        Some('n') => o.push('\n'),
        Some('t') => o.push('\t'),
        Some('r') => o.push('\r'),
        Some(c) => o.push(c),
        None => {},
      }
    } else {
      o.push(c)
    }
  }
  o
}

pub struct Slot {
  pub file: Option<File>,
  pub seq: u64,
}

impl Slot {
  /// Publish the case about to run: seq, space, choices.
  pub fn publish(&mut self, space: usize, forced: &[u32]) {
    self.seq += 1;
    if let Some(f) = &self.file {
      let mut buf = Vec::with_capacity(16 + forced.len() * 2);
      buf.extend_from_slice(&self.seq.to_le_bytes());
      buf.extend_from_slice(&(space as u32).to_le_bytes());
      buf.extend_from_slice(&(forced.len() as u32).to_le_bytes());
      for c in forced {
        buf.extend_from_slice(&(*c as u16).to_le_bytes());
      }
      let _ = f.write_at(&buf, 0);
    }
  }
}

pub fn read_slot(bytes: &[u8]) -> Option<(u64, usize, Vec<u32>)> {
  let seq = u64::from_le_bytes(bytes.get(0..8)?.try_into().ok()?);
  let space = u32::from_le_bytes(bytes.get(8..12)?.try_into().ok()?);
  let n = u32::from_le_bytes(bytes.get(12..16)?.try_into().ok()?) as usize;
  let mut v = vec![];
  for i in 0..n {
    v.push(u16::from_le_bytes(bytes.get(16 + 2 * i..18 + 2 * i)?.try_into().ok()?) as u32);
  }
  Some((seq, space as usize, v))
}

/// Split the choice tree of a space into prefixes.
fn frontier(space: &Space, idx: usize, tier: Tier, want: usize, slot: &mut Slot) -> Vec<Vec<u32>> {
  let mut done: Vec<Vec<u32>> = vec![];
  let mut open: Vec<Vec<u32>> = vec![vec![]];
  let mut depth = 0;
  while done.len() + open.len() < want && !open.is_empty() && depth < 12 {
    let mut next = vec![];
    for p in open.drain(..) {
      slot.publish(idx, &p);
      let (ch, _) = run_case(space, p.clone(), tier);
      if ch.widths.len() > p.len() {
        for c in 0..ch.widths[p.len()] {
          let mut q = p.clone();
          q.push(c);
          next.push(q);
        }
      } else {
        done.push(p);
      }
    }
    open = next;
    depth += 1;
  }
  done.extend(open);
  done
}

pub struct Fail {
  pub space: &'static str,
  pub choices: Vec<u32>,
  pub case: String,
  pub msg: String,
}

#[allow(clippy::too_many_arguments)]
pub fn explore(
  space: &Space,
  idx: usize,
  tier: Tier,
  shard: usize,
  nshards: usize,
  slot: &mut Slot,
  deadline: Option<std::time::Instant>,
  max_fails: u64,
  on_fail: &mut dyn FnMut(Fail) -> bool,
) -> Stats {
  let mut st = Stats::default();
  let fr = frontier(space, idx, tier, 48 * nshards, slot);
  let n = fr.len();
  'outer: for (pi, p) in fr.into_iter().enumerate() {
    // Interleave in a scattered but deterministic way.
    if (pi.wrapping_mul(2654435761) >> 7) % nshards != shard && n >= nshards {
      continue;
    }
    if n < nshards && pi % nshards != shard {
      continue;
    }
    let mut forced = p.clone();
    st.states += 1;
    st.transitions += 1;
    let mut fresh_from = p.len();
    loop {
      slot.publish(idx, &forced);
      let (ch, v) = run_case(space, forced.clone(), tier);
      st.cases += 1;
      st.model_steps += ch.model_steps;
      let d = ch.taken.len();
      st.max_depth = st.max_depth.max(d as u64);
      let fresh = d.saturating_sub(fresh_from) as u64;
      st.states += fresh;
      st.transitions += fresh;
      match v {
        V::Ok(o) => {
          st.checked += 1;
          if st.outcomes.len() < 20000 {
            st.outcomes.insert(o);
          }
          if st.samples.len() < 3 || (st.checked.is_power_of_two() && st.samples.len() < 24) {
            st.samples.push(ch.note.clone());
          }
        },
        V::Skip(r) => *st.skips.entry(r).or_default() += 1,
        V::Fail(msg) => {
          st.checked += 1;
          let counts = on_fail(Fail { space: space.name, choices: ch.taken.clone(), case: ch.note.clone(), msg });
          if counts {
            st.fails += 1;
            if st.fails >= max_fails {
              st.capped = true;
              break 'outer;
            }
          }
        },
      }
      if let Some(dl) = deadline {
        if st.cases % 64 == 0 && std::time::Instant::now() > dl {
          st.capped = true;
          break 'outer;
        }
      }
      // Next leaf under this prefix.
      let mut t = ch.taken;
      let mut w = ch.widths;
      loop {
        if t.len() <= p.len() {
          continue 'outer;
        }
        let last = t.len() - 1;
        if t[last] + 1 < w[last] {
          t[last] += 1;
          break;
        }
        t.pop();
        w.pop();
      }
      fresh_from = t.len() - 1;
      forced = t;
    }
  }
  st
}
