//! The frame every check runs in: cases, counters, verdicts, worker processes and evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property doesn't hold
    Violation(String),
    /// the harness can't tell
    Unsure(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Violation(s)
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err($crate::core::Fail::Violation(format!($($t)*)));
        }
    };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => {
        return Err($crate::core::Fail::Violation(format!($($t)*)))
    };
}

#[derive(Default)]
pub struct Rec {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub known: BTreeMap<String, String>,
}

pub struct Cx<'a> {
    pub seed: u64,
    pub case: u64,
    pub r: Rng,
    pub rec: &'a mut Rec,
    pub thorough: bool,
    pub notes: Vec<(String, String)>,
    pub listed: &'a HashSet<String>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Cx<'_> {
    /// What was given to the code under test, for the replay file.
    pub fn note(&mut self, name: &str, text: impl Into<String>) {
        self.notes.push((name.to_string(), text.into()));
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.rec.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.rec.counters.insert(name.to_string(), n);
            }
        }
    }
    /// One evaluation of the property: counted as distinct by what `t` hashes to, if non-trivial.
    pub fn eval<T: Hash + ?Sized>(&mut self, t: &T, nontrivial: bool) {
        self.rec.evals += 1;
        if nontrivial {
            self.rec.distinct.insert(hash_of(t));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.rec.samples.len() < 2 {
            let mut s = s();
            if s.len() > 700 {
                let cut = (0..=700).rev().find(|i| s.is_char_boundary(*i)).unwrap();
                s.truncate(cut);
                s.push('…');
            }
            self.rec.samples.push(s);
        }
    }
    pub fn is_listed(&self, id: &str) -> bool {
        self.listed.contains(id)
    }
    /// A known finding was seen to fail again.
    pub fn known(&mut self, id: &str, what: &str) {
        self.rec.known.insert(id.to_string(), what.to_string());
    }
}

pub struct Check {
    pub id: &'static str,
    /// cases of the quick and the thorough tier
    pub cases: (u64, u64),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that have to reach a value for the run to count as an observation
    pub need: &'static [(&'static str, u64)],
    pub run: fn(&mut Cx) -> Res,
    /// demonstrations of known findings, run once
    pub known: Option<fn(&mut Cx) -> Res>,
    pub exhaustive: bool,
}

pub fn json(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// one line, reversible
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, giving a panic in the code under test as a violation and one of the harness as unsure.
pub fn guard<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::new(), String::new()));
            if msg.starts_with("MONITOR:") {
                Err(Fail::Violation(format!("{msg} ({loc})")))
            } else if loc.starts_with("src/") {
                Err(Fail::Unsure(format!("the harness panicked at {loc}: {msg}")))
            } else {
                Err(Fail::Violation(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

fn run_case(
    check: &Check,
    seed: u64,
    case: u64,
    thorough: bool,
    rec: &mut Rec,
    listed: &HashSet<String>,
    demo: bool,
) -> (Res, Vec<(String, String)>) {
    let mut cx = Cx {
        seed,
        case,
        r: Rng::new(seed, check.id, case),
        rec,
        thorough,
        notes: Vec::new(),
        listed,
    };
    let f = if demo { check.known.unwrap() } else { check.run };
    let r = guard(|| f(&mut cx));
    let notes = std::mem::take(&mut cx.notes);
    (r, notes)
}

/// user and system time of this process in ms
fn cpu_ms() -> u64 {
    let mut s = String::new();
    if fs::File::open("/proc/self/stat")
        .and_then(|mut f| f.read_to_string(&mut s))
        .is_err()
    {
        return 0;
    }
    let rest = s.rsplit_once(')').map_or("", |x| x.1);
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

pub const EXIT_HANG: i32 = 97;
pub const EXIT_MEMORY: i32 = 98;
/// Bytes a worker may have in use at once, which is far beyond what any case needs.
pub const MEMORY_CAP: usize = 3 << 30;
/// Seconds a worker may sleep in a case, with all of its threads, before it counts as stuck.
const STUCK_S: u64 = 45;
/// Miri's is an interpreter's
const CASE_CPU_MS: u64 = if cfg!(miri) { 1_000_000 } else { 100_000 };
static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

pub fn worker(check: &'static Check, thorough: bool, seed: u64, shard: u64, shards: u64, dir: &Path, n: u64, deadline: u64, listed: HashSet<String>) {
    install_hook();
    crate::alloc::set_cap(MEMORY_CAP);
    let start = Instant::now();
    let state = fs::File::create(dir.join(format!("w{shard}.state"))).unwrap();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let case = CASE.load(SeqCst);
            let now = cpu_ms();
            if case != last.0 {
                last = (case, now);
            } else if now - last.1 > CASE_CPU_MS {
                std::process::exit(EXIT_HANG);
            }
        }
    });
    let dir = dir.to_path_buf();
    // the usual stack size of a main thread
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut rec = Rec::default();
            let mut out = String::new();
            let mut failed = None;
            let mut skipped = 0;
            if shard == 0 && check.known.is_some() {
                let _ = state.write_all_at(format!("{:>20}", "known").as_bytes(), 0);
                CASE.store(u64::MAX - 1, SeqCst);
                let (r, notes) = run_case(check, seed, u64::MAX, thorough, &mut rec, &listed, true);
                if let Err(f) = r {
                    failed = Some((u64::MAX, f, notes));
                }
            }
            let mut case = shard;
            while failed.is_none() && case < n {
                if start.elapsed().as_secs() >= deadline {
                    skipped = (n - case).div_ceil(shards);
                    break;
                }
                let _ = state.write_all_at(format!("{case:>20}").as_bytes(), 0);
                CASE.store(case, SeqCst);
                let (r, notes) = run_case(check, seed, case, thorough, &mut rec, &listed, false);
                if let Err(f) = r {
                    failed = Some((case, f, notes));
                }
                case += shards;
            }
            CASE.store(u64::MAX - 2, SeqCst);
            out += &format!("evals {}\nskipped {skipped}\n", rec.evals);
            for (k, v) in &rec.counters {
                out += &format!("c {v} {}\n", esc(k));
            }
            for s in &rec.samples {
                out += &format!("s {}\n", esc(s));
            }
            for (k, v) in &rec.known {
                out += &format!("k {k} {}\n", esc(v));
            }
            if let Some((case, f, notes)) = failed {
                let (tag, msg) = match f {
                    Fail::Violation(m) => ("v", m),
                    Fail::Unsure(m) => ("u", m),
                };
                out += &format!("{tag} {case} {}\n", esc(&msg));
                for (k, v) in notes {
                    out += &format!("n {} {}\n", k.replace(' ', "_"), esc(&v));
                }
            }
            let mut h: Vec<u8> = Vec::with_capacity(rec.distinct.len() * 8);
            for d in &rec.distinct {
                h.extend(d.to_le_bytes());
            }
            fs::write(dir.join(format!("w{shard}.hash")), h).unwrap();
            fs::write(dir.join(format!("w{shard}.out")), out).unwrap();
        })
        .unwrap();
    if t.join().is_err() {
        std::process::exit(2);
    }
}

pub struct Merged {
    pub rec: Rec,
    pub skipped: u64,
    pub violations: Vec<(u64, String, Vec<(String, String)>)>,
    pub unsure: Vec<String>,
}

/// Whether all threads of a process sleep, and the CPU time it has used.
fn asleep(pid: u32) -> (bool, u64) {
    let stat = |p: String| {
        let s = fs::read_to_string(p).unwrap_or_default();
        let f: Vec<String> = s.rsplit_once(')').map_or("", |x| x.1).split_whitespace().map(String::from).collect();
        let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        (f.first().is_some_and(|s| s == "S"), t(11) + t(12))
    };
    let cpu = stat(format!("/proc/{pid}/stat")).1;
    let Ok(tasks) = fs::read_dir(format!("/proc/{pid}/task")) else {
        return (false, cpu);
    };
    let all = tasks.flatten().all(|t| stat(format!("{}/stat", t.path().display())).0);
    (all, cpu)
}

/// Waits until the workers have ended. One that doesn't do anything any more is ended.
fn wait_all(children: &mut [Child], dir: &Path) -> Vec<(ExitStatus, bool)> {
    let mut done: Vec<Option<(ExitStatus, bool)>> = vec![None; children.len()];
    // what was last seen of each, and for how many looks it has been so
    let mut last = vec![(String::new(), 0u64, 0u64); children.len()];
    loop {
        let mut waiting = false;
        for (s, c) in children.iter_mut().enumerate() {
            if done[s].is_some() {
                continue;
            }
            if let Some(status) = c.try_wait().unwrap() {
                done[s] = Some((status, false));
                continue;
            }
            waiting = true;
            let (still, cpu) = asleep(c.id());
            let state = fs::read_to_string(dir.join(format!("w{s}.state"))).unwrap_or_default();
            let l = &mut last[s];
            if still && l.0 == state && cpu < l.1 + 20 {
                l.2 += 1;
                if l.2 >= STUCK_S * 10 {
                    let _ = c.kill();
                    done[s] = Some((c.wait().unwrap(), true));
                }
            } else {
                *l = (state, cpu, 0);
            }
        }
        if !waiting {
            return done.into_iter().flatten().collect();
        }
        std::thread::sleep(Duration::from_millis(100));
    }
}

fn merge(dir: &Path, shard: u64, (status, stuck): (ExitStatus, bool), m: &mut Merged) {
    let err = fs::read_to_string(dir.join(format!("w{shard}.err"))).unwrap_or_default();
    let state = fs::read_to_string(dir.join(format!("w{shard}.state"))).unwrap_or_default();
    let case = state.trim().parse::<u64>().unwrap_or(u64::MAX);
    if !status.success() {
        let sig = status.signal();
        // a sanitizer's report, or the end of what was said
        let report = [
            "error: Undefined Behavior",
            "error: abnormal",
            "error: the evaluated program",
            "ERROR: AddressSanitizer",
            "ERROR: ThreadSanitizer",
            "WARNING: ThreadSanitizer",
        ]
            .iter()
            .find_map(|r| err.find(r));
        let tail: String = match report {
            Some(at) => err[at..].chars().take(2500).collect(),
            None => err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect(),
        };
        let what = match stuck {
            true => format!("worker {shard} did nothing any more, with all of its threads waiting, in case {case}: {tail}"),
            false => format!("worker {shard} ended with {status} in case {case}: {tail}"),
        };
        let memory = err.contains("memory allocation of");
        let crash = matches!(sig, Some(4 | 6 | 7 | 8 | 11));
        if status.code() == Some(EXIT_HANG) {
            let what = format!("case {case} used more than {} s of CPU time", CASE_CPU_MS / 1000);
            m.violations.push((case, what, vec![]));
        } else if status.code() == Some(EXIT_MEMORY) {
            let what = format!("case {case} used more than {} GB of memory", MEMORY_CAP >> 30);
            m.violations.push((case, what, vec![]));
        } else if stuck {
            m.violations.push((case, what, vec![]));
        } else if (crash && !memory) || report.is_some() {
            m.violations.push((case, what, vec![]));
        } else {
            m.unsure.push(what);
        }
        return;
    }
    let out = match fs::read_to_string(dir.join(format!("w{shard}.out"))) {
        Ok(o) => o,
        Err(e) => {
            m.unsure.push(format!("worker {shard} left no result: {e}"));
            return;
        }
    };
    for b in fs::read(dir.join(format!("w{shard}.hash"))).unwrap_or_default().chunks_exact(8) {
        m.rec.distinct.insert(u64::from_le_bytes(b.try_into().unwrap()));
    }
    let mut in_violation = false;
    for line in out.lines() {
        let (tag, rest) = line.split_once(' ').unwrap_or((line, ""));
        let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
        match tag {
            "evals" => m.rec.evals += a.parse::<u64>().unwrap(),
            "skipped" => m.skipped += a.parse::<u64>().unwrap(),
            "c" => *m.rec.counters.entry(unesc(b)).or_default() += a.parse::<u64>().unwrap(),
            "s" => m.rec.samples.push(unesc(rest)),
            "k" => {
                m.rec.known.insert(a.to_string(), unesc(b));
            }
            "v" => {
                in_violation = true;
                m.violations.push((a.parse().unwrap(), unesc(b), vec![]));
            }
            "u" => m.unsure.push(format!("case {a}: {}", unesc(b))),
            "n" if in_violation => {
                m.violations.last_mut().unwrap().2.push((a.to_string(), unesc(b)));
            }
            _ => (),
        }
    }
}

/// Ids listed in known_findings.json as findings (not as fixed).
pub fn listed(verif: &Path) -> HashSet<String> {
    let text = fs::read_to_string(verif.join("known_findings.json")).unwrap_or_default();
    let mut out = HashSet::new();
    for part in text.split("\"id\"").skip(1) {
        let id = part.split('"').nth(1).unwrap_or("");
        out.insert(id.to_string());
    }
    out
}

fn env_u64(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|v| v.trim().parse().ok())
}

pub fn parent(check: &'static Check, verif: &Path) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let n = env_u64("VERIF_CASES").unwrap_or(if thorough { check.cases.1 } else { check.cases.0 });
    let deadline = env_u64("VERIF_DEADLINE").unwrap_or(if thorough { 7200 } else { 300 });
    // one worker for each build of the harness that's named, if any are
    let exe = std::env::current_exe().unwrap();
    let builds: Vec<(String, PathBuf)> = std::env::var("VERIF_BUILDS")
        .unwrap_or_default()
        .split(';')
        .filter_map(|b| b.split_once('='))
        .map(|(n, p)| (n.to_string(), PathBuf::from(p)))
        .collect();
    let shards = env_u64("VERIF_JOBS")
        .filter(|_| builds.is_empty())
        .or((!builds.is_empty()).then_some(builds.len() as u64))
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .clamp(1, 16)
        .min(n.max(1));
    let dir: PathBuf = verif.join("target").join(format!("run-{}-{}", check.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let evidence = verif.join("evidence");
    fs::create_dir_all(evidence.join("replays")).unwrap();
    let replay_rel = format!("evidence/replays/{}.json", check.id);
    let _ = fs::remove_file(verif.join(&replay_rel));
    let mut children: Vec<Child> = (0..shards)
        .map(|s| {
            let (name, path) = builds.get(s as usize).map_or(("native", &exe), |(n, p)| (n, p));
            let mut c = Command::new(path);
            let (mut n, mut deadline) = (n, deadline);
            if name == "miri" {
                // the path is one of a program that runs the harness in Miri
                (n, deadline) = if thorough { (4000, 1500) } else { (400, 90) };
            }
            c.args(["worker", check.id, tier])
                .args([seed, s, shards, n, deadline].map(|x| x.to_string()))
                .env("VERIF_MONITOR", name)
                .arg(&dir)
                .env("VERIF_DIR", verif)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(fs::File::create(dir.join(format!("w{s}.err"))).unwrap())
                .spawn()
                .unwrap()
        })
        .collect();
    let mut m = Merged {
        rec: Rec::default(),
        skipped: 0,
        violations: vec![],
        unsure: vec![],
    };
    for (s, end) in wait_all(&mut children, &dir).into_iter().enumerate() {
        merge(&dir, s as u64, end, &mut m);
    }
    let _ = fs::remove_dir_all(&dir);
    m.violations.sort_by_key(|v| v.0);
    m.rec.samples.truncate(6);

    let mut problems = m.unsure.clone();
    if m.violations.is_empty() {
        for (name, min) in check.need {
            let got = m.rec.counters.get(*name).copied().unwrap_or(0);
            if got < *min && env_u64("VERIF_CASES").is_none() {
                problems.push(format!("too few observations of `{name}`: {got}, needs {min}"));
            }
        }
        if m.rec.evals == 0 {
            problems.push("nothing was observed".to_string());
        }
    }

    let mut cov = String::new();
    cov += &format!("    \"evaluations\": {},\n", m.rec.evals);
    cov += &format!("    \"distinct_nontrivial\": {},\n", m.rec.distinct.len());
    cov += &format!("    \"rule\": {},\n", json(check.rule));
    cov += &format!("    \"cases_planned\": {n},\n    \"cases_skipped_for_time\": {},\n", m.skipped);
    cov += &format!("    \"workers\": {shards},\n");
    if check.exhaustive {
        cov += &format!("    \"exhaustive\": {},\n", m.skipped == 0 && m.violations.is_empty());
    }
    cov += "    \"observed\": {\n";
    let c: Vec<_> = m
        .rec
        .counters
        .iter()
        .map(|(k, v)| format!("      {}: {v}", json(k)))
        .collect();
    cov += &c.join(",\n");
    cov += "\n    },\n    \"samples\": [\n";
    let s: Vec<_> = m.rec.samples.iter().map(|s| format!("      {}", json(s))).collect();
    cov += &s.join(",\n");
    cov += "\n    ]";
    let assumptions: Vec<_> = check.assumptions.iter().map(|a| format!("    {}", json(a))).collect();
    let known: Vec<_> = m
        .rec
        .known
        .iter()
        .map(|(k, v)| format!("    {}", json(&format!("{k}: {v}"))))
        .collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n{cov}\n  }},\n  \"assumptions\": [\n{}\n  ],\n  \"known_findings_seen\": [\n{}\n  ],\n  \"inconclusive\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json(check.id),
        assumptions.join(",\n"),
        known.join(",\n"),
        problems.iter().map(|p| json(p)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        m.violations.len(),
    );
    fs::write(evidence.join(format!("{}.json", check.id)), ev).unwrap();

    for (id, what) in &m.rec.known {
        println!("KNOWN-FINDING: property={} {id}: {what}", check.id);
    }
    if let Some((case, msg, notes)) = m.violations.first() {
        let mut r = format!(
            "{{\n  \"property\": {},\n  \"seed\": {seed},\n  \"tier\": \"{tier}\",\n  \"case\": {},\n  \"message\": {},\n  \"inputs\": {{\n",
            json(check.id),
            if *case == u64::MAX { "\"known\"".to_string() } else { case.to_string() },
            json(msg)
        );
        let n: Vec<_> = notes.iter().map(|(k, v)| format!("    {}: {}", json(k), json(v))).collect();
        r += &n.join(",\n");
        r += "\n  }\n}\n";
        fs::write(verif.join(&replay_rel), r).unwrap();
        println!("case {case}: {msg}");
        for (case, msg, _) in m.violations.iter().skip(1) {
            println!("also case {case}: {msg}");
        }
        for p in &problems {
            println!("also inconclusive: {p}");
        }
        println!("VIOLATION property={} replay={replay_rel}", check.id);
        return 1;
    }
    if !problems.is_empty() {
        for p in &problems {
            println!("INCONCLUSIVE property={}: {p}", check.id);
        }
        return 2;
    }
    println!(
        "{}: held on {} evaluations ({} distinct) in {:.1} s, {tier}, seed {seed}",
        check.id,
        m.rec.evals,
        m.rec.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

/// Runs one case in this process, by hand.
pub fn replay(check: &'static Check, seed: u64, case: u64, thorough: bool, verif: &Path) -> i32 {
    install_hook();
    let listed = listed(verif);
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut rec = Rec::default();
            let (r, notes) = run_case(check, seed, case, thorough, &mut rec, &listed, case == u64::MAX);
            for (k, v) in notes {
                println!("--- {k}\n{v}");
            }
            println!("---");
            for (k, v) in rec.counters {
                println!("{v:>8} {k}");
            }
            match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(Fail::Violation(m)) => {
                    println!("VIOLATED: {m}");
                    1
                }
                Err(Fail::Unsure(m)) => {
                    println!("inconclusive: {m}");
                    2
                }
            }
        })
        .unwrap();
    let _ = std::io::stdout().flush();
    t.join().unwrap_or(2)
}
