mod asm;
mod cexpr;
mod corpus;
mod checks;
mod engine;
mod gen;
mod num;
mod reflit;
mod rs;
mod sem;
mod syntax;
mod refpp;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
  std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn parse_tier(s: &str) -> Tier {
  if s == "thorough" {
    Tier::Thorough
  } else {
    Tier::Quick
  }
}

fn csv(c: &[u32]) -> String {
  c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}
fn uncsv(s: &str) -> Vec<u32> {
  s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
}

/// `finding: property=C17 case=<escaped case> what=<text>`
struct Known {
  property: String,
  case: String,
  what: String,
}
fn known_findings() -> Vec<Known> {
  let mut out = vec![];
  if let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) {
    for l in s.lines() {
      if let Some(l) = l.strip_prefix("finding: property=") {
        if let Some((p, rest)) = l.split_once(" case=") {
          if let Some((c, w)) = rest.split_once(" what=") {
            out.push(Known { property: p.trim().into(), case: unesc(c), what: w.into() });
          }
        }
      }
    }
  }
  out
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  match args.get(1).map(|s| s.as_str()) {
    Some("check") => {
      let tier = parse_tier(args.get(3).map(|s| s.as_str()).unwrap_or("quick"));
      std::process::exit(supervise(&args[2], tier));
    },
    Some("worker") => on_big_stack(worker),
    Some("describe") => on_big_stack(describe),
    Some("replay") => on_big_stack(replay),
    Some("list") => {
      for id in checks::IDS {
        for s in checks::spaces(id, Tier::Quick) {
          println!("{id} {} -- {}", s.name, s.bounds);
        }
      }
    },
    _ => {
      eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list");
      std::process::exit(2);
    },
  }
}

fn on_big_stack(f: fn()) {
  std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap();
}

fn worker() {
  install_hook();
  let a: Vec<String> = std::env::args().collect();
  let (id, tier, shard, nshards, slotf) = (&a[2], parse_tier(&a[3]), a[4].parse::<usize>().unwrap(), a[5].parse::<usize>().unwrap(), &a[6]);
  let max_fails: u64 = std::env::var("MC_MAX_FAILS").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
  let only = std::env::var("MC_SPACE").ok();
  let budget: u64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.q(600, 5400));
  let deadline = Instant::now() + Duration::from_secs(budget);
  let known = known_findings();
  let mut slot = Slot { file: std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(slotf).ok(), seq: 0 };
  let out = std::io::stdout();
  for (idx, sp) in checks::spaces(id, tier).into_iter().enumerate() {
    if let Some(o) = &only {
      if o != sp.name {
        continue;
      }
    }
    let st = explore(&sp, idx, tier, shard, nshards, &mut slot, Some(deadline), max_fails, &mut |f| {
      let k = known.iter().position(|k| &k.property == id && k.case == f.case);
      let mut o = out.lock();
      match k {
        Some(i) => {
          let _ = writeln!(o, "KNOWN\t{i}");
          false
        },
        None => {
          let _ = writeln!(o, "FAIL\t{}\t{}\t{}\t{}", f.space, csv(&f.choices), esc(&f.case), esc(&f.msg));
          let _ = o.flush();
          true
        },
      }
    });
    let mut o = out.lock();
    for s in &st.samples {
      let _ = writeln!(o, "SAMPLE\t{}\t{}", sp.name, esc(s));
    }
    for (r, n) in &st.skips {
      let _ = writeln!(o, "SKIP\t{}\t{}\t{}", sp.name, r, n);
    }
    let outs: Vec<String> = st.outcomes.iter().map(|x| format!("{x:x}")).collect();
    let _ = writeln!(o, "OUT\t{}\t{}", sp.name, outs.join(","));
    let _ = writeln!(
      o,
      "STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
      sp.name, st.cases, st.checked, st.states, st.transitions, st.model_steps, st.max_depth, st.capped as u8
    );
    let _ = o.flush();
  }
  let mut o = out.lock();
  let _ = writeln!(o, "DONE");
  let _ = o.flush();
  std::process::exit(0);
}

fn describe() {
  install_hook();
  let a: Vec<String> = std::env::args().collect();
  let sp = checks::spaces(&a[2], parse_tier(&a[3])).into_iter().nth(a[4].parse().unwrap()).unwrap();
  let mut ch = Ch::new(uncsv(&a[5]), parse_tier(&a[3]));
  ch.describe_only = true;
  let _ = (sp.f)(&mut ch);
  println!("{}", ch.note);
  std::process::exit(0);
}

fn replay() {
  install_hook();
  let a: Vec<String> = std::env::args().collect();
  let text = std::fs::read_to_string(&a[2]).expect("replay file");
  let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
  let tier = parse_tier(&get("tier"));
  let sp = checks::spaces(&get("property"), tier).into_iter().find(|s| s.name == get("space")).expect("space");
  println!("case: {}", unesc(&get("case")));
  // A recorded failure must fail the same way twice.
  let mut msgs = vec![];
  for _ in 0..2 {
    let (ch, v) = run_case(&sp, uncsv(&get("choices")), tier);
    let m = match v {
      V::Ok(_) => "ok".to_string(),
      V::Skip(r) => format!("skip: {r}"),
      V::Fail(m) => format!("FAIL {m}"),
    };
    msgs.push((ch.note, m));
  }
  println!("replayed case: {}", msgs[0].0);
  println!("result: {}", msgs[0].1);
  if msgs[0] != msgs[1] {
    println!("NONDETERMINISTIC: second run gave {:?}", msgs[1]);
    std::process::exit(2);
  }
  std::process::exit(if msgs[0].1.starts_with("FAIL") { 1 } else { 0 });
}

enum Msg {
  Line(usize, String),
  Eof(usize),
}

#[derive(Default, Clone)]
struct Agg {
  cases: u64,
  checked: u64,
  states: u64,
  transitions: u64,
  model_steps: u64,
  max_depth: u64,
  capped: bool,
  outcomes: HashSet<u64>,
  skips: BTreeMap<String, u64>,
  samples: Vec<String>,
}

fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn supervise(id: &str, tier: Tier) -> i32 {
  let t0 = Instant::now();
  let spaces = checks::spaces(id, tier);
  if spaces.is_empty() {
    eprintln!("unknown property {id}");
    return 2;
  }
  let tier_s = tier.q("quick", "thorough");
  let n = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16);
  let out_dir = verif().join("out");
  let _ = std::fs::create_dir_all(&out_dir);
  let scratch = out_dir.join(format!("run-{id}-{}", std::process::id()));
  std::fs::create_dir_all(&scratch).unwrap();
  let exe = std::env::current_exe().unwrap();
  let (tx, rx) = mpsc::channel::<Msg>();
  let mut children = vec![];
  for i in 0..n {
    let slot = scratch.join(format!("slot{i}"));
    let mut c = Command::new("/bin/sh")
      .arg("-c")
      .arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"")
      .arg(&exe)
      .args(["worker", id, tier_s, &i.to_string(), &n.to_string()])
      .arg(&slot)
      .stdout(Stdio::piped())
      .stderr(Stdio::from(std::fs::File::create(scratch.join(format!("err{i}"))).unwrap()))
      .spawn()
      .expect("spawn worker");
    let so = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
      let mut r = BufReader::new(so);
      let mut buf = vec![];
      loop {
        buf.clear();
        match r.read_until(b'\n', &mut buf) {
          Ok(0) | Err(_) => break,
          Ok(_) => {
            let _ = tx.send(Msg::Line(i, String::from_utf8_lossy(&buf).trim_end_matches('\n').to_string()));
          },
        }
      }
      let _ = tx.send(Msg::Eof(i));
    });
    children.push((c, slot, false, (0u64, Instant::now()), false)); // (child, slot, done, progress, eof)
  }
  drop(tx);

  let mut agg: BTreeMap<String, Agg> = BTreeMap::new();
  let mut fails: Vec<(String, String, String, String)> = vec![]; // space, choices, case, msg
  let mut known_hit: BTreeMap<usize, u64> = BTreeMap::new();
  let mut open = n;
  let mut engine_error = None;
  let mut first_fail: Option<Instant> = None;
  let linger: u64 = std::env::var("MC_LINGER").ok().and_then(|s| s.parse().ok()).unwrap_or(4);
  let hang_s: u64 = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
  let describe = |space: usize, choices: &[u32]| -> String {
    let o = Command::new(&exe).args(["describe", id, tier_s, &space.to_string(), &csv(choices)]).output();
    o.map(|o| String::from_utf8_lossy(&o.stdout).trim_end().to_string()).unwrap_or_default()
  };
  while open > 0 {
    match rx.recv_timeout(Duration::from_millis(300)) {
      Ok(Msg::Line(i, l)) => {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
          "KNOWN" => *known_hit.entry(f[1].parse().unwrap()).or_default() += 1,
          "FAIL" => {
            fails.push((f[1].into(), f[2].into(), f[3].into(), f[4].into()));
            first_fail.get_or_insert(Instant::now());
          },
          "SAMPLE" => {
            let a = agg.entry(f[1].into()).or_default();
            a.samples.push(unesc(f[2]));
          },
          "SKIP" => *agg.entry(f[1].into()).or_default().skips.entry(f[2].into()).or_default() += f[3].parse::<u64>().unwrap(),
          "OUT" => {
            let a = agg.entry(f[1].into()).or_default();
            for x in f[2].split(',').filter(|x| !x.is_empty()) {
              a.outcomes.insert(u64::from_str_radix(x, 16).unwrap());
            }
          },
          "STAT" => {
            let a = agg.entry(f[1].into()).or_default();
            let v: Vec<u64> = f[2..].iter().map(|x| x.parse().unwrap()).collect();
            a.cases += v[0];
            a.checked += v[1];
            a.states += v[2];
            a.transitions += v[3];
            a.model_steps += v[4];
            a.max_depth = a.max_depth.max(v[5]);
            a.capped |= v[6] == 1;
          },
          "DONE" => children[i].2 = true,
          _ => {},
        }
      },
      Ok(Msg::Eof(i)) => {
        open -= 1;
        children[i].4 = true;
        let status = children[i].0.wait();
        if !children[i].2 && first_fail.is_none() {
          let code = status.as_ref().ok().and_then(|s| s.code());
          let err = std::fs::read_to_string(scratch.join(format!("err{i}"))).unwrap_or_default();
          if code == Some(2) {
            engine_error = Some(format!("worker {i}: {err}"));
          } else if let Some((_, sp, ch)) = std::fs::read(&children[i].1).ok().and_then(|b| read_slot(&b)) {
            // The process died inside the implementation: stack overflow, abort or memory limit.
            let case = describe(sp, &ch);
            fails.push((spaces[sp].name.into(), csv(&ch), esc(&case), esc(&format!("the process died ({status:?}): {}", err.lines().take(3).collect::<Vec<_>>().join(" ")))));
            first_fail.get_or_insert(Instant::now());
          } else {
            engine_error = Some(format!("worker {i} died: {status:?} {err}"));
          }
        }
      },
      Err(_) => {},
    }
    let now = Instant::now();
    for (i, c) in children.iter_mut().enumerate() {
      if c.4 {
        continue;
      }
      let seq = std::fs::read(&c.1).ok().and_then(|b| read_slot(&b));
      if let Some((seq, sp, ch)) = seq {
        if seq != c.3 .0 {
          c.3 = (seq, now);
        } else if !c.2 && now.duration_since(c.3 .1).as_secs() > hang_s {
          let _ = c.0.kill();
          c.2 = true;
          let case = describe(sp, &ch);
          fails.push((spaces[sp].name.into(), csv(&ch), esc(&case), format!("no result after {hang_s} s (worker {i})")));
          first_fail.get_or_insert(now);
        }
      }
      if let Some(t) = first_fail {
        if now.duration_since(t).as_secs() >= linger {
          let _ = c.0.kill();
          c.2 = true;
        }
      }
    }
  }
  let _ = std::fs::remove_dir_all(&scratch);
  if let Some(e) = engine_error {
    eprintln!("ENGINE ERROR: {e}");
    return 2;
  }

  // Report.
  let known = known_findings();
  for (i, k) in known.iter().enumerate() {
    if k.property == id && known_hit.contains_key(&i) {
      println!("KNOWN-FINDING: property={id} {}", k.what);
    }
  }
  // Simplest first.
  fails.sort_by_key(|f| (f.2.len(), f.2.clone()));
  let mut code = 0;
  let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
  for (i, (space, choices, case, msg)) in fails.iter().take(show).enumerate() {
    code = 1;
    let path = out_dir.join(format!("{id}-{i}.replay"));
    let body = format!(
      "property={id}\ntier={tier_s}\nspace={space}\nchoices={choices}\ncase={case}\nmessage={msg}\n# replay: {} replay {}\n",
      exe.display(),
      path.display()
    );
    let _ = std::fs::write(&path, body);
    println!("VIOLATION property={id} replay={}", path.display());
    println!("  case: {}", unesc(case).replace('\n', "\n        "));
    println!("  what: {}", unesc(msg).replace('\n', "\n        "));
  }
  let wall = t0.elapsed().as_secs_f64();
  write_evidence(id, tier_s, &spaces, &agg, fails.len(), wall, &known, &known_hit);
  let t: Agg = agg.values().fold(Agg::default(), |mut t, a| {
    t.cases += a.cases;
    t.checked += a.checked;
    t.states += a.states;
    t.transitions += a.transitions;
    t
  });
  println!("{id} {tier_s}: {} cases compared with the model ({} out of domain), {} states, {} transitions, {:.1} s", t.checked, t.cases - t.checked, t.states, t.transitions, wall);
  if std::env::var("MC_VERBOSE").is_ok() {
    for (k, a) in &agg {
      println!("  {k}: cases {} checked {} states {} depth {} outcomes {} skips {:?} capped {}", a.cases, a.checked, a.states, a.max_depth, a.outcomes.len(), a.skips, a.capped);
    }
  }
  code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, tier: &str, spaces: &[Space], agg: &BTreeMap<String, Agg>, nfails: usize, wall: f64, known: &[Known], hit: &BTreeMap<usize, u64>) {
  let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let sum = |f: fn(&Agg) -> u64| agg.values().map(f).sum::<u64>();
  let exhaustive = nfails == 0 && agg.len() == spaces.len() && agg.values().all(|a| !a.capped);
  let mut samples: Vec<String> = vec![];
  let mut sp_json = vec![];
  for s in spaces {
    let Some(a) = agg.get(s.name) else { continue };
    let m = a.samples.len();
    for i in [0, m / 2, m.saturating_sub(1)] {
      if let Some(x) = a.samples.get(i) {
        let x: String = x.chars().take(400).collect();
        let x = format!("{}: {x}", s.name);
        if !samples.contains(&x) {
          samples.push(x);
        }
      }
    }
    let skips: Vec<String> = a.skips.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    sp_json.push(format!(
      "{{\"name\": {}, \"bounds\": {}, \"leaves\": {}, \"compared\": {}, \"out_of_domain\": {{{}}}, \"tree_nodes\": {}, \"longest_path\": {}, \"model_steps\": {}, \"distinct_outcomes_at_least\": {}, \"complete\": {}}}",
      jstr(s.name), jstr(&s.bounds), a.cases, a.checked, skips.join(", "), a.states, a.max_depth, a.model_steps, a.outcomes.len(), !a.capped && nfails == 0
    ));
  }
  let ks: Vec<String> = hit.iter().filter(|(i, _)| known[**i].property == id).map(|(i, n)| format!("{{\"case\": {}, \"times\": {n}}}", jstr(&known[*i].case))).collect();
  let j = format!(
    "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {exhaustive},\n  \"explanation\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"known_findings_seen\": [{}],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {nfails}\n}}\n",
    jstr(id), jstr(tier), sum(|a| a.states), sum(|a| a.transitions), sum(|a| a.checked),
    jstr("states are the nodes of the exhaustively walked choice tree (distinct partial cases), transitions its edges, and every leaf in the domain is one trace executed on the real crate and compared with the reference model"),
    sp_json.join(",\n   "), ks.join(", "), samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "),
    checks::assumptions(id).iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
  );
  let dir = verif().join("evidence");
  let _ = std::fs::create_dir_all(&dir);
  let tmp = dir.join(format!(".{id}.{}", std::process::id()));
  if std::fs::write(&tmp, j).is_ok() {
    let _ = std::fs::rename(&tmp, Path::new(&dir).join(format!("{id}.json")));
  }
}
