//! Exploration framework: families of cases, worker threads, supervisor, evidence, replay files.
//!
//! A *family* is a finite indexed space: `batches` batches, each one a deterministic sequence of cases.
//! A case is identified by (property, tier, family, batch, case), so every case can be replayed alone.

use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const STACK: usize = 1 << 29;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Family {
    pub name: String,
    /// what the family enumerates, in words
    pub space: String,
    pub batches: u64,
    pub hang_s: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
}

pub fn family(
    name: impl Into<String>,
    space: impl Into<String>,
    batches: u64,
    run: impl Fn(u64, &mut Ctx) + Send + Sync + 'static,
) -> Family {
    Family { name: name.into(), space: space.into(), batches, hang_s: 20, run: Box::new(run) }
}

/// A check: the families that decide one property
pub struct Check {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub families: Vec<Family>,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Violation {
    pub family: usize,
    pub batch: u64,
    pub case: u64,
    pub what: String,
}

pub struct Ctx {
    pub family: usize,
    pub batch: u64,
    pub case: u64,
    only: Option<u64>,
    trace: Option<Arc<File>>,
    counter: Arc<AtomicU64>,
    pub stats: Stats,
    pub viol: Option<Violation>,
    sample_left: u32,
}

impl Ctx {
    /// Moves to the next case. False if it has not to be run (replaying another one, or already failed)
    pub fn next(&mut self) -> bool {
        self.case += 1;
        self.counter.store(self.case, SeqCst);
        if self.viol.is_some() {
            return false;
        }
        if let Some(o) = self.only {
            if o != self.case {
                return false;
            }
        }
        if let Some(f) = &self.trace {
            let _ = f.write_at(&self.case.to_le_bytes(), 0);
        }
        self.stats.evals += 1;
        true
    }
    pub fn stop(&self) -> bool {
        self.viol.is_some() || self.only.map_or(false, |o| self.case >= o)
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    pub fn fail(&mut self, what: String) {
        if self.viol.is_none() {
            self.viol = Some(Violation { family: self.family, batch: self.batch, case: self.case, what });
        }
    }
    /// Runs the code under test; a panic is a violation
    pub fn real<T>(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        if self.only.is_some() {
            println!("{}", what());
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let w = what();
                self.fail(format!("{}\n  the call panicked: {}", w, m));
                None
            }
        }
    }
    pub fn outcome(&mut self, k: &str) {
        match self.stats.outcomes.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.stats.outcomes.insert(k.to_string(), 1);
            }
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        if b {
            self.stats.nontrivial += 1;
        }
    }
    /// keeps some of the cases, spread over the batches
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_left > 0 && self.case >= 3 {
            self.sample_left -= 1;
            let s = f();
            self.stats.samples.push(s.chars().take(400).collect());
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn new_ctx(family: usize, batch: u64, only: Option<u64>, counter: Arc<AtomicU64>, samples: u32) -> Ctx {
    Ctx {
        family,
        batch,
        case: 0,
        only,
        trace: None,
        counter,
        stats: Stats::default(),
        viol: None,
        sample_left: samples,
    }
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// a harness panic (outside `Ctx::real`) is an error of the check, never a verdict
fn run_batch(f: &Family, b: u64, ctx: &mut Ctx) {
    let r = catch_unwind(AssertUnwindSafe(|| (f.run)(b, ctx)));
    if let Err(p) = r {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("HARNESS ERROR family={} batch={} case={}: {}", f.name, b, ctx.case, m);
        exit(2);
    }
}

type Slot = (Arc<AtomicU64>, Arc<Mutex<Option<(usize, u64)>>>);

/// what the exploring threads share
struct Shared {
    check: Check,
    offs: Vec<u64>,
    total: u64,
    next: AtomicU64,
    stop: AtomicBool,
    alive: AtomicU64,
    viols: Mutex<Vec<Violation>>,
    fam: Mutex<BTreeMap<usize, Stats>>,
    prog: File,
}

const SLOTS: usize = 16;

fn explore(sh: &Shared, t: usize, slot: &Slot) {
    loop {
        let i = sh.next.fetch_add(1, SeqCst);
        if i >= sh.total || sh.stop.load(SeqCst) {
            break;
        }
        let fi = (0..sh.offs.len()).rev().find(|&k| sh.offs[k] <= i).unwrap();
        // families switched off have no batches: take the last one starting here
        let b = i - sh.offs[fi];
        let f = &sh.check.families[fi];
        if b >= f.batches {
            continue;
        }
        slot.0.store(0, SeqCst);
        *slot.1.lock().unwrap() = Some((fi, b));
        let mut rec = [0u8; 24];
        rec[0..8].copy_from_slice(&1u64.to_le_bytes());
        rec[8..16].copy_from_slice(&(fi as u64).to_le_bytes());
        rec[16..24].copy_from_slice(&b.to_le_bytes());
        let _ = sh.prog.write_at(&rec, (t * 24) as u64);
        let samples = sh.fam.lock().unwrap().get(&fi).map_or(0, |s| s.samples.len());
        let mut ctx = new_ctx(fi, b, None, slot.0.clone(), if samples < 8 { 1 } else { 0 });
        run_batch(f, b, &mut ctx);
        {
            let mut fam = sh.fam.lock().unwrap();
            let st = fam.entry(fi).or_default();
            st.evals += ctx.stats.evals;
            st.nontrivial += ctx.stats.nontrivial;
            st.states += ctx.stats.states;
            st.transitions += ctx.stats.transitions;
            for (o, n) in std::mem::take(&mut ctx.stats.outcomes) {
                *st.outcomes.entry(o).or_default() += n;
            }
            st.samples.append(&mut ctx.stats.samples);
        }
        *slot.1.lock().unwrap() = None;
        let _ = sh.prog.write_at(&[0u8; 8], (t * 24) as u64);
        if let Some(v) = ctx.viol.take() {
            sh.viols.lock().unwrap().push(v);
            sh.stop.store(true, SeqCst);
        }
    }
    sh.alive.fetch_sub(1, SeqCst);
}

/// Explores everything; exit code 0 held, 1 violation, 3 some cases did not end in time
pub fn worker(id: &str, tier: Tier, check: Check) -> ! {
    silence_panics();
    let t0 = Instant::now();
    let dir = root().join("target/run");
    let _ = fs::create_dir_all(&dir);
    let prog = File::create(dir.join(format!("{}.progress", id))).unwrap();
    let only_family = std::env::var("MC_FAMILY").ok();
    // work list: (family, batch), in order
    let mut offs = vec![];
    let mut total = 0u64;
    for f in &check.families {
        offs.push(total);
        let on = only_family.as_ref().map_or(true, |o| f.name == *o);
        total += if on { f.batches } else { 0 };
    }
    let sh = Arc::new(Shared {
        check,
        offs,
        total,
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        alive: AtomicU64::new(0),
        viols: Mutex::new(vec![]),
        fam: Mutex::new(BTreeMap::new()),
        prog,
    });
    let start = |t: usize| -> Slot {
        let slot: Slot = (Arc::new(AtomicU64::new(0)), Arc::new(Mutex::new(None)));
        sh.alive.fetch_add(1, SeqCst);
        let (sh, s) = (sh.clone(), slot.clone());
        std::thread::Builder::new().stack_size(STACK).spawn(move || explore(&sh, t, &s)).unwrap();
        slot
    };
    let mut slots: Vec<Slot> = (0..THREADS).map(&start).collect();
    let mut last: Vec<(Option<(usize, u64)>, u64, Instant)> = slots.iter().map(|_| (None, 0, Instant::now())).collect();
    // cases that didn't end in time; their threads are left behind and replaced
    let mut late: Vec<Option<(usize, u64, u64)>> = vec![None; slots.len()];
    let mut found: Option<Instant> = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let left = late.iter().flatten().count();
        if sh.alive.load(SeqCst) as usize <= left {
            break;
        }
        if !sh.viols.lock().unwrap().is_empty() {
            if found.get_or_insert_with(Instant::now).elapsed().as_secs() >= 5 {
                break;
            }
            continue;
        }
        for i in 0..slots.len() {
            if late[i].is_some() {
                continue;
            }
            let cur = (*slots[i].1.lock().unwrap(), slots[i].0.load(SeqCst));
            if cur != (last[i].0, last[i].1) {
                last[i] = (cur.0, cur.1, Instant::now());
            } else if let Some((fi, b)) = cur.0 {
                if last[i].2.elapsed().as_secs() > sh.check.families[fi].hang_s {
                    late[i] = Some((fi, b, cur.1));
                    if slots.len() < SLOTS {
                        slots.push(start(slots.len()));
                        last.push((None, 0, Instant::now()));
                        late.push(None);
                    } else {
                        sh.stop.store(true, SeqCst);
                    }
                }
            }
        }
    }
    let late: Vec<_> = late.into_iter().flatten().collect();
    let mut vs = std::mem::take(&mut *sh.viols.lock().unwrap());
    vs.sort_by_key(|v| (v.family, v.batch, v.case));
    let fam = std::mem::take(&mut *sh.fam.lock().unwrap());
    let all = only_family.is_none() && late.is_empty();
    write_evidence(id, tier, &sh.check, &fam, t0.elapsed().as_secs_f64(), vs.len(), all);
    for (k, s) in &fam {
        println!(
            "{} {:<28} cases={} nontrivial={} states={} transitions={} outcomes={:?}",
            id, sh.check.families[*k].name, s.evals, s.nontrivial, s.states, s.transitions, s.outcomes
        );
    }
    println!("{} {} wall={:.1}s", id, tier.name(), t0.elapsed().as_secs_f64());
    if let Some(v) = vs.first() {
        let alone = run_replay(id, tier, v.family, v.batch, v.case, Duration::from_secs(60));
        report(id, tier, &sh.check, v.family, v.batch, v.case, &v.what, &alone);
        exit(1);
    }
    if !late.is_empty() {
        let txt: Vec<String> = late.iter().map(|l| format!("{} {} {}", l.0, l.1, l.2)).collect();
        let _ = fs::write(dir.join(format!("{}.hang", id)), txt.join("\n"));
        exit(3);
    }
    exit(0)
}

fn write_evidence(
    id: &str,
    tier: Tier,
    check: &Check,
    fam: &BTreeMap<usize, Stats>,
    wall: f64,
    violations: usize,
    all: bool,
) {
    let sum = |f: fn(&Stats) -> u64| fam.values().map(f).sum::<u64>();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fams = vec![];
    for (k, s) in fam {
        for (o, n) in &s.outcomes {
            *outcomes.entry(o.clone()).or_default() += n;
        }
        for x in s.samples.iter().take(2) {
            samples.push(format!("[{}] {}", check.families[*k].name, x));
        }
        fams.push(format!(
            "{{\"name\":{},\"space\":{},\"cases\":{}}}",
            jstr(&check.families[*k].name),
            jstr(&check.families[*k].space),
            s.evals
        ));
    }
    samples.truncate(40);
    let sj: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let oj: Vec<String> = outcomes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let cov = if check.level == "model_checking" {
        format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"nontrivial_traces\":{}",
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.evals),
            sum(|s| s.nontrivial)
        )
    } else {
        format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{}",
            sum(|s| s.evals),
            sum(|s| s.nontrivial)
        )
    };
    let asj: Vec<String> = check.assumptions.iter().map(|s| jstr(s)).collect();
    let txt = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{},\"rule\":{},\"samples\":[{}],\"outcomes\":{{{}}},\"families\":[{}],\"exhaustive\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(id), jstr(tier.name()), seed(), jstr(check.level), cov, jstr(check.rule), sj.join(","), oj.join(","),
        fams.join(","), all && violations == 0, asj.join(","), wall, violations
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", id)), txt).expect("write evidence");
}

#[allow(clippy::too_many_arguments)]
fn report(id: &str, tier: Tier, check: &Check, fi: usize, b: u64, c: u64, what: &str, alone: &str) {
    let mut what = what.to_string();
    if !what.contains('\n') {
        // crash or hang: what the replay was doing
        let log = replay_log(id, fi, b, c);
        let s = fs::read_to_string(log).unwrap_or_default();
        what = format!("{}\n{}", s.chars().take(4000).collect::<String>(), what);
    }
    let what = what.as_str();
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let f = &check.families[fi];
    let path = dir.join(format!("{}-{}-{}-{}.txt", id, f.name.replace(|c: char| !c.is_alphanumeric(), "_"), b, c));
    let txt = format!(
        "property: {}\ncase: tier={} family={} ({}) batch={} case={}\nspace: {}\n\n{}\n\nreplay: cd /verif && bash check.sh replay {} {} {} {} {}\nalone, in a fresh process: {}\n",
        id, tier.name(), fi, f.name, b, c, f.space, what, id, tier.name(), fi, b, c, alone
    );
    let mut o = File::create(&path).expect("write replay");
    let _ = o.write_all(txt.as_bytes());
    println!("{}", what);
    println!("(alone, in a fresh process: {})", alone);
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn replay_log(id: &str, fi: usize, b: u64, c: u64) -> PathBuf {
    root().join("target/run").join(format!("{}-{}-{}-{}.replay", id, fi, b, c))
}

/// does the case fail alone, in a fresh process?
fn run_replay(id: &str, tier: Tier, fi: usize, b: u64, c: u64, limit: Duration) -> String {
    run_replay_traced(id, tier, fi, b, c, limit, None)
}

fn run_replay_traced(id: &str, tier: Tier, fi: usize, b: u64, c: u64, limit: Duration, trace: Option<&str>) -> String {
    let me = std::env::current_exe().unwrap();
    let out = File::create(replay_log(id, fi, b, c)).map(Stdio::from).unwrap_or_else(|_| Stdio::null());
    let ch = Command::new(me)
        .args(["replay", id, tier.name(), &fi.to_string(), &b.to_string(), &c.to_string()])
        .args(trace)
        .stdout(out)
        .stderr(Stdio::null())
        .spawn();
    let mut ch = match ch {
        Ok(c) => c,
        Err(e) => return format!("cannot run: {}", e),
    };
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(0) => "does not fail (it depends on what was run before)".into(),
                    Some(1) => "fails again".into(),
                    Some(n) => format!("error, exit {}", n),
                    None => "dies by a signal".into(),
                }
            }
            Ok(None) if t.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return "does not end".into();
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// `mc replay`: one case alone
pub fn replay(_id: &str, check: Check, fi: usize, b: u64, c: u64, traced: Option<&str>) -> ! {
    if traced.is_none() {
        silence_panics();
    }
    let check = Arc::new(check);
    let tr = traced.map(|p| Arc::new(File::create(p).unwrap()));
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = new_ctx(fi, b, if c == 0 { None } else { Some(c) }, Arc::new(AtomicU64::new(0)), 0);
            ctx.trace = tr;
            run_batch(&check.families[fi], b, &mut ctx);
            match ctx.viol {
                Some(v) => {
                    println!("{}", v.what);
                    println!("FAILS");
                    exit(1)
                }
                None => {
                    println!("cases run: {}: no failure", ctx.stats.evals);
                    exit(0)
                }
            }
        })
        .unwrap();
    let _ = h.join();
    exit(2)
}

fn failed(r: &str) -> bool {
    r == "dies by a signal" || r == "does not end" || r == "fails again"
}

/// all of them at the same time, each one in its process
fn in_parallel<T: Send, R: Send>(v: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = v.into_iter().map(|x| s.spawn(move || f(x))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// `mc check`: runs the worker as a child, so that a crash or a hang of the code under test becomes a verdict
/// only if the single case reproduces it.
pub fn supervise(id: &str, tier: Tier, mk: impl Fn() -> Check) -> ! {
    let me = std::env::current_exe().unwrap();
    let run = root().join("target/run");
    let _ = fs::create_dir_all(&run);
    if let Ok(d) = fs::read_dir(&run) {
        for e in d.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.starts_with(&format!("{}-", id)) || n.starts_with(&format!("{}.", id)) {
                let _ = fs::remove_file(e.path());
            }
        }
    }
    let hangf = run.join(format!("{}.hang", id));
    let alone_s = Duration::from_secs(60);
    for attempt in 0..2 {
        let st = Command::new(&me).args(["worker", id, tier.name()]).status().expect("spawn worker");
        match st.code() {
            Some(0) => exit(0),
            Some(1) => exit(1),
            Some(3) => {
                let s = fs::read_to_string(&hangf).unwrap_or_default();
                let late: Vec<Vec<u64>> =
                    s.lines().map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect()).collect();
                let rs = in_parallel(late.clone(), |v| run_replay(id, tier, v[0] as usize, v[1], v[2], alone_s));
                for (v, r) in late.iter().zip(&rs) {
                    if failed(r) {
                        let check = mk();
                        verdict_evidence(id, tier, &check);
                        report(id, tier, &check, v[0] as usize, v[1], v[2], "the call does not return", r);
                        exit(1);
                    }
                    eprintln!("{}: case {:?} was slow, alone: {}", id, v, r);
                }
                // slow, but they end: the rest of their batches
                let rs = in_parallel(late.clone(), |v| {
                    let tf = run.join(format!("{}-{}-{}.trace", id, v[0], v[1])).to_string_lossy().to_string();
                    let limit = Duration::from_secs(tier.pick(300, 2000));
                    run_replay_traced(id, tier, v[0] as usize, v[1], 0, limit, Some(&tf))
                });
                for (v, r) in late.iter().zip(&rs) {
                    if r == "fails again" {
                        let check = mk();
                        verdict_evidence(id, tier, &check);
                        report(id, tier, &check, v[0] as usize, v[1], 0, "a case of this batch fails", r);
                        exit(1);
                    }
                }
                if rs.iter().all(|r| r.starts_with("does not fail")) {
                    exit(0)
                }
            }
            other => {
                eprintln!("{}: worker ended with {:?} ({})", id, other, st);
                if other == Some(2) {
                    exit(2);
                }
                // find the case: each batch in flight, traced
                let p = fs::read(run.join(format!("{}.progress", id))).unwrap_or_default();
                let mut flying = vec![];
                for t in 0..SLOTS.min(p.len() / 24) {
                    let g = |k: usize| u64::from_le_bytes(p[t * 24 + k..t * 24 + k + 8].try_into().unwrap());
                    if g(0) == 1 {
                        flying.push((g(8) as usize, g(16)));
                    }
                }
                let rs = in_parallel(flying.clone(), |(fi, b)| {
                    let tf = run.join(format!("{}-{}-{}.trace", id, fi, b));
                    let tfs = tf.to_string_lossy().to_string();
                    let r = run_replay_traced(id, tier, fi, b, 0, Duration::from_secs(150), Some(&tfs));
                    if !failed(&r) {
                        return None;
                    }
                    let c = u64::from_le_bytes(fs::read(&tf).unwrap_or_default().get(0..8)?.try_into().unwrap());
                    let r = run_replay(id, tier, fi, b, c, alone_s);
                    if failed(&r) {
                        Some((c, r))
                    } else {
                        None
                    }
                });
                for ((fi, b), r) in flying.into_iter().zip(rs) {
                    if let Some((c, r)) = r {
                        let check = mk();
                        verdict_evidence(id, tier, &check);
                        let what = "the process dies running this case (stack or memory exhausted)";
                        report(id, tier, &check, fi, b, c, what, &r);
                        exit(1);
                    }
                }
            }
        }
        eprintln!("{}: attempt {} gave no answer", id, attempt);
    }
    exit(2)
}

fn verdict_evidence(id: &str, tier: Tier, check: &Check) {
    let mut fam = BTreeMap::new();
    let mut s = Stats::default();
    s.evals = 1;
    s.samples.push("the run was cut by a crash or a hang of the code under test".into());
    fam.insert(0usize, s);
    write_evidence(id, tier, check, &fam, 0.0, 1, false);
}
