//! Runs the cases of one property on all cores, classifies them, shrinks the first failure to a
//! replay file and writes the evidence. Only two endings are verdicts: exit 0 and exit 1.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use crate::tape::{hash_bytes, shrink, splitmix, Src};

#[derive(Clone, Debug)]
pub struct Fail {
  /// Whether the failure depends on the cases before it: then it is neither shrunk nor run alone.
  pub history: bool,
  /// What failed, without the particulars of the input: shrinking keeps it, known findings name it.
  pub sig: String,
  pub msg: String,
  pub doc: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>, doc: impl Into<String>) -> Result<T, Fail> {
  Err(Fail { history: false, sig: sig.into(), msg: msg.into(), doc: doc.into() })
}

pub fn fail_after<T>(sig: impl Into<String>, msg: impl Into<String>, doc: impl Into<String>) -> Result<T, Fail> {
  Err(Fail { history: true, sig: sig.into(), msg: msg.into(), doc: doc.into() })
}

pub struct Ctx {
  pub src: Src,
  pub idx: u64,
  pub labels: Vec<&'static str>,
  pub nontrivial: bool,
  pub key: u64,
  pub sample: Option<String>,
  pub discarded: bool,
}

impl Ctx {
  pub fn new(src: Src, idx: u64) -> Self {
    Ctx { src, idx, labels: Vec::new(), nontrivial: false, key: 0, sample: None, discarded: false }
  }

  pub fn label(&mut self, l: &'static str) {
    if !self.labels.contains(&l) {
      self.labels.push(l);
    }
  }

  /// Declares the case's input; `nontrivial` by the property's stated rule.
  pub fn input(&mut self, text: &str, nontrivial: bool) {
    self.key = hash_bytes(text.as_bytes());
    self.nontrivial |= nontrivial;
    self.sample = Some(text.to_string());
  }

  pub fn discard(&mut self, why: &'static str) -> Res {
    self.discarded = true;
    self.label(why);
    Ok(())
  }
}

pub struct Prop {
  pub id: &'static str,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub case: fn(&mut Ctx) -> Res,
  pub assumptions: &'static [&'static str],
  /// Whether the property says that there is an answer at all.
  pub hangs: bool,
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
  static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    let quiet = QUIET.with(|q| *q.borrow());
    if quiet {
      LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    } else {
      old(info);
    }
  }));
}

/// Calls the code under test; a panic in it comes back as its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  let was = QUIET.with(|q| q.replace(true));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  QUIET.with(|q| *q.borrow_mut() = was);
  r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
  let mut s = hash_bytes(prop.as_bytes()) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
  let a = splitmix(&mut s);
  let mut t = a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
  splitmix(&mut t)
}

pub fn json_str(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

#[derive(Default)]
struct Stats {
  evals: u64,
  discarded: u64,
  distinct: HashSet<u64>,
  labels: BTreeMap<&'static str, u64>,
  samples: Vec<String>,
  known: BTreeMap<String, u64>,
  bytes: u64,
  max_bytes: usize,
}

impl Stats {
  fn merge(&mut self, o: Stats) {
    self.evals += o.evals;
    self.discarded += o.discarded;
    self.distinct.extend(o.distinct);
    for (k, v) in o.labels {
      *self.labels.entry(k).or_default() += v;
    }
    self.samples.extend(o.samples);
    for (k, v) in o.known {
      *self.known.entry(k).or_default() += v;
    }
    self.bytes += o.bytes;
    self.max_bytes = self.max_bytes.max(o.max_bytes);
  }
}

pub struct Opts {
  pub tier: String,
  pub seed: u64,
  pub out: PathBuf,
  pub known: PathBuf,
  pub cases: Option<u64>,
  pub show: u64,
}

/// Known findings: lines `known: property=<id> sig=<signature> :: <what fails>`.
fn load_known(path: &PathBuf, id: &str) -> Vec<(String, String)> {
  let text = std::fs::read_to_string(path).unwrap_or_default();
  text
    .lines()
    .filter_map(|l| l.trim().strip_prefix("known: "))
    .filter_map(|l| {
      let rest = l.strip_prefix(&format!("property={id} sig="))?;
      let (sig, what) = rest.split_once(" :: ")?;
      Some((sig.to_string(), what.to_string()))
    })
    .collect()
}

/// Runs the case. The code under test is called guarded, so a panic that arrives here is the
/// harness's own: the case then decides nothing, and is counted as such.
fn decide(prop: &Prop, ctx: &mut Ctx) -> Res {
  let r = guarded(|| (prop.case)(ctx));
  for m in std::mem::take(&mut ctx.src.marks) {
    ctx.label(m);
  }
  match r {
    Ok(r) => r,
    Err(p) => {
      if std::env::var("DBML_DEBUG").is_ok() {
        eprintln!("case {} {:?}: {p}", ctx.idx, ctx.labels);
      }
      ctx.discard(HARNESS_PANIC)
    }
  }
}

const HARNESS_PANIC: &str = "harness: the case could not be made";

pub fn run_one(prop: &Prop, tape: &[u64], idx: u64) -> (Ctx, Res) {
  let mut ctx = Ctx::new(Src::replay(tape), idx);
  let r = decide(prop, &mut ctx);
  (ctx, r)
}

/// Runs one case again by its number.
pub fn run_index(prop: &'static Prop, o: &Opts, idx: u64) -> i32 {
  let seed = o.seed;
  std::thread::Builder::new()
    .stack_size(64 << 20)
    .spawn(move || {
      let mut ctx = Ctx::new(Src::fresh(case_seed(seed, prop.id, idx)), idx);
      match decide(prop, &mut ctx) {
        Ok(()) => 0,
        Err(f) => {
          println!("{}\n{}\n--- document ---\n{}\n----------------", f.sig, f.msg, f.doc);
          1
        }
      }
    })
    .expect("thread")
    .join()
    .unwrap_or(2)
}

/// Runs a saved case again: exit 1 if it still fails.
pub fn replay(prop: &'static Prop, path: &str, o: &Opts) -> i32 {
  let body = std::fs::read_to_string(path).expect("replay file");
  let line = body.lines().next().unwrap_or_default().to_string();
  let field = |k: &str| line.split_whitespace().find_map(|w| w.strip_prefix(&format!("{k}="))).unwrap_or_default().to_string();
  let idx = field("idx").parse().unwrap_or(0);
  if field("upto") == "1" {
    let o = Opts { seed: field("seed").parse().unwrap_or(1), cases: Some(idx + 1), tier: o.tier.clone(), out: o.out.clone(), known: o.known.clone(), ..*o };
    return run(prop, &o);
  }
  let code = if field("fresh") == "1" {
    let o = Opts { seed: field("seed").parse().unwrap_or(1), tier: o.tier.clone(), out: o.out.clone(), known: o.known.clone(), ..*o };
    run_index(prop, &o, idx)
  } else {
    let tape: Vec<u64> = field("tape").split(',').filter_map(|x| x.parse().ok()).collect();
    std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn(move || match run_one(prop, &tape, idx).1 {
        Ok(()) => 0,
        Err(f) => {
          println!("{}\n{}\n--- document ---\n{}\n----------------", f.sig, f.msg, f.doc);
          1
        }
      })
      .expect("thread")
      .join()
      .unwrap_or(2)
  };
  match code {
    0 => println!("{}: the saved case passes", prop.id),
    1 => println!("VIOLATION property={} replay={path}", prop.id),
    _ => (),
  }
  code
}

/// The draws of a case that cannot be run here, as far as they say anything.
pub fn index_text(prop: &Prop, o: &Opts, idx: u64) -> String {
  format!("run again: dbmlcheck {} --seed {} --one {idx} (case seed {:016x})", prop.id, o.seed, case_seed(o.seed, prop.id, idx))
}

pub fn crash_evidence(prop: &Prop, o: &Opts) {
  write_evidence(prop, o, &Stats { evals: 1, ..Stats::default() }, 0.0, 1);
}

pub fn run(prop: &'static Prop, o: &Opts) -> i32 {
  let start = Instant::now();
  let total = o.cases.unwrap_or(if o.tier == "thorough" { prop.thorough } else { prop.quick });
  let known = Arc::new(load_known(&o.known, prop.id));
  let next = Arc::new(AtomicU64::new(0));
  let first_fail = Arc::new(AtomicU64::new(u64::MAX));
  let failures: Arc<Mutex<BTreeMap<u64, (Vec<u64>, Fail)>>> = Arc::default();
  let done = Arc::new(AtomicBool::new(false));
  let limit_s: u64 = if o.tier == "thorough" { 6 * 3600 } else { 840 };
  // a quick run that is slow for want of processors stops early, and says how far it came
  let enough_s: u64 = if o.tier == "thorough" { 5 * 3600 } else { 400 };
  // per thread, the case it is at and when it began (ms)
  let at: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..8).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect());
  {
    let done = done.clone();
    let id = prop.id;
    let at = at.clone();
    let o = Opts { tier: o.tier.clone(), out: o.out.clone(), known: o.known.clone(), ..*o };
    std::thread::spawn(move || loop {
      std::thread::sleep(std::time::Duration::from_millis(500));
      if done.load(Ordering::SeqCst) {
        return;
      }
      let now = start.elapsed().as_millis() as u64;
      for (idx, since) in at.iter() {
        if prop.hangs && now.saturating_sub(since.load(Ordering::SeqCst)) > HANG_S * 1000 {
          hung(prop, &o, idx.load(Ordering::SeqCst));
        }
      }
      if start.elapsed().as_secs() > limit_s {
        eprintln!("{id}: gave up after {limit_s} s without an answer (no verdict)");
        std::process::exit(2);
      }
    });
  }

  let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
  let journal = std::env::var("DBML_JOURNAL").ok();
  let sample_every = (total / 5).max(1);
  let handles: Vec<_> = (0..threads)
    .map(|t| {
      let (next, first_fail, failures, known) = (next.clone(), first_fail.clone(), failures.clone(), known.clone());
      let (seed, show) = (o.seed, o.show);
      let (journal, at) = (journal.clone(), at.clone());
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          let mut st = Stats::default();
          let jf = journal.map(|p| std::fs::File::create(format!("{p}.{t}")).expect("journal"));
          loop {
            let base = next.fetch_add(16, Ordering::SeqCst);
            if base >= total || base > first_fail.load(Ordering::SeqCst) || start.elapsed().as_secs() > enough_s {
              break;
            }
            for idx in base..(base + 16).min(total) {
              if let Some(f) = &jf {
                f.write_all_at(&idx.to_le_bytes(), 0).expect("journal");
              }
              let mut ctx = Ctx::new(Src::fresh(case_seed(seed, prop.id, idx)), idx);
              at[t].0.store(idx, Ordering::SeqCst);
              at[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
              let r = decide(prop, &mut ctx);
              at[t].1.store(u64::MAX, Ordering::SeqCst);
              st.evals += 1;
              if ctx.discarded {
                st.discarded += 1;
              } else if ctx.nontrivial {
                st.distinct.insert(ctx.key);
              }
              for l in &ctx.labels {
                *st.labels.entry(l).or_default() += 1;
              }
              if let Some(s) = &ctx.sample {
                st.bytes += s.len() as u64;
                st.max_bytes = st.max_bytes.max(s.len());
                if idx < show {
                  println!("--- case {idx} {:?} nontrivial={}\n{s}\n", ctx.labels, ctx.nontrivial);
                }
                if (idx % sample_every == 0 || idx % sample_every == 1) && ctx.nontrivial && st.samples.len() < 2 {
                  st.samples.push(s.chars().take(1200).collect());
                }
              }
              if let Err(f) = r {
                if known.iter().any(|(s, _)| *s == f.sig) {
                  *st.known.entry(f.sig.clone()).or_default() += 1;
                  continue;
                }
                failures.lock().unwrap().insert(idx, (ctx.src.out.clone(), f));
                first_fail.fetch_min(idx, Ordering::SeqCst);
                break;
              }
            }
          }
          st
        })
        .expect("thread")
    })
    .collect();

  let mut st = Stats::default();
  let mut broken = false;
  for h in handles {
    match h.join() {
      Ok(s) => st.merge(s),
      Err(_) => broken = true,
    }
  }
  if broken {
    eprintln!("{}: the harness itself failed (no verdict)", prop.id);
    return 2;
  }

  let lost = st.labels.get(HARNESS_PANIC).copied().unwrap_or(0);
  if lost * 50 > st.evals {
    eprintln!("{}: {lost} of {} cases could not be made (no verdict)", prop.id, st.evals);
    return 2;
  }
  for (sig, what) in known.iter() {
    println!("KNOWN-FINDING: property={} {} [{} times in this run, sig={}]", prop.id, what, st.known.get(sig).copied().unwrap_or(0), sig);
  }

  let failing = failures.lock().unwrap().iter().next().map(|(i, (t, f))| (*i, t.clone(), f.clone()));
  let mut code = 0;
  if let Some((idx, tape, f)) = &failing {
    let (idx, sig) = (*idx, f.sig.clone());
    let small = if f.history {
      tape.clone()
    } else {
      let tape = tape.clone();
      let sig = sig.clone();
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          let deadline = Instant::now() + std::time::Duration::from_secs(60);
          shrink(tape, 6000, &mut |cand| {
            if Instant::now() > deadline {
              return None;
            }
            let (ctx, r) = run_one(prop, cand, idx);
            match r {
              Err(f) if f.sig == sig => Some(ctx.src.out),
              _ => None,
            }
          })
        })
        .expect("thread")
        .join()
        .unwrap_or_else(|_| failing.as_ref().unwrap().1.clone())
    };
    let shown = match run_one(prop, &small, idx).1 {
      Err(f2) if !f.history => f2,
      _ => f.clone(),
    };
    let path = write_replay(prop.id, o, idx, &small, &shown);
    println!("case {idx}: {}\n{}\n--- document ---\n{}\n----------------", shown.sig, shown.msg, shown.doc);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    code = 1;
  }

  done.store(true, Ordering::SeqCst);
  write_evidence(prop, o, &st, start.elapsed().as_secs_f64(), code);
  if code == 0 {
    println!(
      "{}: held on {} cases ({} distinct non-trivial, {} discarded) in {:.1} s",
      prop.id,
      st.evals,
      st.distinct.len(),
      st.discarded,
      start.elapsed().as_secs_f64()
    );
  }
  if o.show > 0 {
    for (k, v) in &st.labels {
      println!("  {k}: {v}");
    }
  }
  code
}

/// How long one case may take; the slowest takes about a second.
const HANG_S: u64 = 150;

fn hung(prop: &'static Prop, o: &Opts, idx: u64) -> ! {
  let dir = o.out.join("replays");
  std::fs::create_dir_all(&dir).expect("replay dir");
  let path = dir.join(format!("{}-hang-{idx}.txt", prop.id));
  std::fs::write(&path, format!("property={} idx={idx} seed={} fresh=1\nsignature: no answer\nno answer within {HANG_S} s\n{}\n", prop.id, o.seed, index_text(prop, o, idx))).expect("replay file");
  println!("case {idx} of seed {}: no answer within {HANG_S} s", o.seed);
  println!("VIOLATION property={} replay={}", prop.id, path.display());
  crash_evidence(prop, o);
  std::process::exit(1);
}

pub fn write_replay(id: &str, o: &Opts, idx: u64, tape: &[u64], f: &Fail) -> PathBuf {
  let dir = o.out.join("replays");
  std::fs::create_dir_all(&dir).expect("replay dir");
  let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
  let how = if f.history { format!("seed={} upto=1", o.seed) } else { format!("tape={}", t.join(",")) };
  let body = format!(
    "property={id} idx={idx} {how}\nsignature: {}\n{}\n--- document ---\n{}\n",
    f.sig,
    f.msg,
    f.doc
  );
  let path = dir.join(format!("{id}-{:016x}.txt", hash_bytes(body.as_bytes())));
  std::fs::write(&path, body).expect("replay file");
  path
}

fn write_evidence(prop: &Prop, o: &Opts, st: &Stats, wall: f64, code: i32) {
  let mut labels = String::new();
  for (i, (k, v)) in st.labels.iter().enumerate() {
    if i > 0 {
      labels.push_str(", ");
    }
    labels.push_str(&format!("{}: {}", json_str(k), v));
  }
  let samples: Vec<String> = st.samples.iter().take(6).map(|s| json_str(s)).collect();
  let mut assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
  assumptions.push(json_str("the reference model in /verif/harness states the property correctly; nothing is claimed for inputs outside the generated classes"));
  let j = format!(
    "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"input_bytes_total\": {},\n  \"input_bytes_max\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
    json_str(prop.id),
    json_str(&o.tier),
    o.seed,
    st.evals,
    st.distinct.len(),
    st.discarded,
    st.bytes,
    st.max_bytes,
    json_str(prop.rule),
    labels,
    samples.join(", "),
    assumptions.join(", "),
    wall,
    code
  );
  std::fs::create_dir_all(&o.out).expect("evidence dir");
  let path = o.out.join(format!("{}.json", prop.id));
  std::fs::write(path, j).expect("evidence");
}
