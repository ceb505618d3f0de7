//! Command line shared by the check binaries, and the supervisor: a case that kills the process
//! (stack exhaustion, abort) is found again from the journal and reported like any other failure.

use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::Command;

use crate::engine::{self, Opts, Prop};

pub fn main(all: Vec<&'static Prop>) -> ! {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
  let id = args.first().cloned().unwrap_or_default();
  if id == "list" {
    for p in all {
      println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
    }
    std::process::exit(0);
  }
  let Some(prop) = all.into_iter().find(|p| p.id == id) else {
    eprintln!("unknown property {id:?}");
    std::process::exit(2);
  };
  let env = |k: &str| std::env::var(k).ok();
  let o = Opts {
    tier: get("--tier").or(env("VERIF_TIER")).unwrap_or_else(|| "quick".into()),
    seed: get("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1),
    out: PathBuf::from(get("--out").unwrap_or_else(|| "/verif/evidence".into())),
    known: PathBuf::from(get("--known").unwrap_or_else(|| "/verif/KNOWN_FINDINGS.md".into())),
    cases: get("--cases").and_then(|s| s.parse().ok()),
    show: get("--show").and_then(|s| s.parse().ok()).unwrap_or(0),
  };
  engine::install_panic_hook();
  if let Some(path) = get("--replay") {
    std::process::exit(engine::replay(prop, &path, &o));
  }
  if let Some(i) = get("--one").and_then(|s| s.parse().ok()) {
    std::process::exit(engine::run_index(prop, &o, i));
  }
  if env("DBML_JOURNAL").is_some() {
    std::process::exit(engine::run(prop, &o));
  }
  std::process::exit(supervise(prop, &o, &args));
}

fn fatal(signal: Option<i32>) -> bool {
  // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
  matches!(signal, Some(4 | 6 | 7 | 8 | 11))
}

fn supervise(prop: &'static Prop, o: &Opts, args: &[String]) -> i32 {
  let exe = std::env::current_exe().expect("own path");
  let dir = std::env::temp_dir().join(format!("dbmlcheck-{}", std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch directory");
  let journal = dir.join("journal");
  let st = Command::new(&exe).args(args).env("DBML_JOURNAL", &journal).status().expect("child");
  let code = match st.code() {
    Some(c @ (0 | 1 | 2)) => c,
    Some(_) => 2,
    None if fatal(st.signal()) => crashed(prop, o, &exe, args, &journal),
    None => {
      eprintln!("{}: ended by signal {:?} (no verdict)", prop.id, st.signal());
      2
    }
  };
  let _ = std::fs::remove_dir_all(&dir);
  code
}

fn crashed(prop: &'static Prop, o: &Opts, exe: &std::path::Path, args: &[String], journal: &std::path::Path) -> i32 {
  let mut idx: Vec<u64> = (0..8)
    .filter_map(|t| std::fs::read(format!("{}.{t}", journal.display())).ok())
    .filter_map(|b| b.try_into().ok().map(u64::from_le_bytes))
    .collect();
  idx.sort();
  for i in idx {
    let st = Command::new(exe).args(args).args(["--one", &i.to_string()]).env_remove("DBML_JOURNAL").status().expect("child");
    if fatal(st.signal()) {
      let text = engine::index_text(prop, o, i);
      let dir = o.out.join("replays");
      std::fs::create_dir_all(&dir).expect("replay dir");
      let path = dir.join(format!("{}-crash-{i}.txt", prop.id));
      std::fs::write(&path, format!("property={} idx={i} seed={} fresh=1\nsignature: the process is killed\nsignal {:?}\n{text}\n", prop.id, o.seed, st.signal())).expect("replay file");
      println!("case {i} of seed {}: the code under test kills the process (signal {:?})", o.seed, st.signal());
      println!("VIOLATION property={} replay={}", prop.id, path.display());
      engine::crash_evidence(prop, o);
      return 1;
    }
  }
  eprintln!("{}: the process was killed, but no single case does so (no verdict)", prop.id);
  2
}
