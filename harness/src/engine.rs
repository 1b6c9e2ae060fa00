//! Runs a property: fixed cases, exhaustive enumerations and generated cases, over
//! a fixed number of workers, each with its own generator seeded from VERIF_SEED
//! alone; shrinks a failure; writes the replay and evidence files.

use crate::dict::Dict;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Cx {
    pub tier: Tier,
    pub seed: u64,
    pub dict: Arc<Dict>,
    pub known: Arc<Vec<Known>>,
}

/// One entry of known_findings.json.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

impl Cx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// The listed finding of this property with this exact key, if any.
    pub fn known(&self, property: &str, key: &str) -> Option<&Known> {
        self.known.iter().find(|k| k.property == property && k.key == key)
    }
}

/// What a check says about a case that breaks its property.
#[derive(Debug, Clone)]
pub struct Fail(pub String);

impl<T: Into<String>> From<T> for Fail {
    fn from(s: T) -> Fail {
        Fail(s.into())
    }
}

pub type Verdict = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail(format!($($t)*))) };
}

/// What one worker measured.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub enumerated: u64,
    pub enumerated_nontrivial: u64,
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, serde_json::Value)>,
    pub notes: BTreeMap<String, u64>,
    shrinks: u64,
}

impl Stats {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c)
        }
    }
    pub fn add(&mut self, c: &'static str, n: u64) {
        *self.classes.entry(c).or_insert(0) += n;
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.enumerated += o.enumerated;
        self.enumerated_nontrivial += o.enumerated_nontrivial;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

pub trait Prop: Sync + Send + 'static {
    type Case: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + 'static;

    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// Number of generated cases, quick and thorough.
    fn cases(&self) -> (u64, u64);
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Self::Case>;
    /// Sets `st.nontrivial` where the rule says so.
    fn check(&self, cx: &Cx, case: &Self::Case, st: &mut Stats) -> Verdict;
    /// Fixed cases, run first.
    fn fixed(&self, _cx: &Cx) -> Vec<Self::Case> {
        vec![]
    }
    /// Enumerates the part of a finite space that belongs to `shard` of `shards`;
    /// stops when `f` returns false.
    fn enumerate(&self, _cx: &Cx, _shard: u64, _shards: u64, _f: &mut dyn FnMut(Self::Case) -> bool) {}
    /// Whether `enumerate` covers the property's whole domain.
    fn exhaustive(&self) -> bool {
        false
    }
    /// Whether a generated case is one that `enumerate` also makes.
    fn enumerated(&self, _cx: &Cx, _c: &Self::Case) -> bool {
        false
    }
    /// Smaller variants of a failing case, tried after the generic shrinking.
    fn smaller(&self, _c: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    /// Whether `join` makes one case of several in a row.
    fn joins(&self) -> bool {
        false
    }
    fn join(&self, _before: &[Self::Case], _c: &Self::Case) -> Option<Self::Case> {
        None
    }
    /// One case that does what several do, in several threads at once.
    fn crowd(&self, _c: &[Self::Case]) -> Option<Self::Case> {
        None
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Run once before the cases (builds of probes...). Err is an error of the check.
    fn prepare(&self, _cx: &Cx) -> Result<(), String> {
        Ok(())
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn rng_seed(seed: u64, id: &str, worker: u64) -> [u8; 32] {
    let mut out = [0; 32];
    for i in 0..4u64 {
        let h = hash_of(&(seed, id, worker, i, "barcoders"));
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn runner(seed: u64, id: &str, worker: u64) -> TestRunner {
    TestRunner::new_with_rng(
        Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(seed, id, worker)),
    )
}

fn sample_json<C: Serialize>(c: &C) -> serde_json::Value {
    let v = serde_json::to_value(c).expect("case to JSON");
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let cut: String = s.chars().take(1200).collect();
        serde_json::Value::String(format!("{cut}... ({} characters of JSON)", s.len()))
    }
}

struct Failure<C> {
    case: C,
    msg: String,
    worker: u64,
    shrinks: u32,
    /// as it was found, and what the worker checked just before
    first: C,
    before: Vec<C>,
}

/// Processor seconds after which a single case counts as never ending. Cases take
/// milliseconds, the largest about a second. Processor time, so that a slow or loaded
/// machine is no reason.
const LIMIT: u64 = 30;
pub const HANG: i32 = 97;

/// What the workers are at: a number that changes with each case, 0 between cases.
struct Beat {
    cases: Vec<AtomicU64>,
    tids: Vec<AtomicU64>,
    trace: Option<std::path::PathBuf>,
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

/// Processor time of a thread, in hundredths of a second.
fn cpu(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(") ")?.1.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

impl Beat {
    fn new(workers: u64) -> Arc<Beat> {
        let zeros = || (0..workers).map(|_| AtomicU64::new(0)).collect();
        let b = Arc::new(Beat {
            cases: zeros(),
            tids: zeros(),
            trace: std::env::var("VHARNESS_TRACE").ok().map(Into::into),
        });
        let me = b.clone();
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); workers as usize];
            loop {
                std::thread::sleep(Duration::from_millis(1000));
                for (w, s) in seen.iter_mut().enumerate() {
                    let n = me.cases[w].load(Ordering::Relaxed);
                    let c = cpu(me.tids[w].load(Ordering::Relaxed)).unwrap_or(0);
                    if n == 0 || n != s.0 {
                        *s = (n, c);
                    } else if c > s.1 + LIMIT * 100 {
                        std::process::exit(HANG);
                    }
                }
            }
        });
        b
    }
    /// One check of one case, timed and, in a trace, recorded beforehand.
    fn check<P: Prop>(&self, w: u64, p: &P, cx: &Cx, c: &P::Case, st: &mut Stats) -> Verdict {
        if let Some(d) = &self.trace {
            let r = Replay {
                property: p.id().into(),
                seed: cx.seed,
                message: "the process dies or never ends".into(),
                case: serde_json::to_value(c).unwrap(),
            };
            let _ = std::fs::write(d.join(format!("w{w}.json")), serde_json::to_string(&r).unwrap());
        }
        let n = st.evaluations.max(1) + (st.shrinks << 40);
        self.cases[w as usize].store(n, Ordering::Relaxed);
        let r = p.check(cx, c, st);
        self.cases[w as usize].store(0, Ordering::Relaxed);
        r
    }
}

/// Generation stops after this long, whatever the machine; normally it ends well before.
fn budget(cx: &Cx) -> Duration {
    Duration::from_secs(if cx.thorough() { 5 * 3600 } else { 500 })
}

struct At<'a> {
    beat: &'a Beat,
    worker: u64,
}

fn one<P: Prop>(at: &At, p: &P, cx: &Cx, c: &P::Case, st: &mut Stats, how: How) -> Verdict {
    st.evaluations += 1;
    st.nontrivial = false;
    let r = at.beat.check(at.worker, p, cx, c, st);
    if st.nontrivial {
        let n = match how {
            How::Enumerated => {
                st.enumerated_nontrivial += 1;
                st.enumerated_nontrivial
            }
            How::Generated => {
                if !p.enumerated(cx, c) {
                    st.distinct.insert(hash_of(c));
                }
                st.evaluations
            }
        };
        // samples spread over the run
        if n.is_power_of_two() && st.samples.len() < 24 {
            st.samples.push((n, sample_json(c)));
        }
    }
    if how == How::Enumerated {
        st.enumerated += 1;
    }
    r
}

#[derive(PartialEq, Clone, Copy)]
enum How {
    Enumerated,
    Generated,
}

/// Shrinks with the strategy's own value tree.
fn shrink<P: Prop, T: ValueTree<Value = P::Case>>(at: &At, p: &P, cx: &Cx, mut tree: T, first: Fail) -> (P::Case, Fail, u32) {
    let mut best = (tree.current(), first);
    let mut scratch = Stats::default();
    let mut n = 0;
    let start = Instant::now();
    if tree.simplify() {
        // bounded work; the time limit only affects how small the replay gets
        while n < 5000 && start.elapsed().as_secs() < 60 {
            n += 1;
            scratch.shrinks += 1;
            let c = tree.current();
            let more = match at.beat.check(at.worker, p, cx, &c, &mut scratch) {
                Err(m) => {
                    best = (c, m);
                    tree.simplify()
                }
                Ok(()) => tree.complicate(),
            };
            if !more {
                break;
            }
        }
    }
    by_hand(at, p, cx, best.0, best.1, n)
}

/// Shrinks with the property's own smaller cases.
fn by_hand<P: Prop>(at: &At, p: &P, cx: &Cx, case: P::Case, m: Fail, mut n: u32) -> (P::Case, Fail, u32) {
    let mut best = (case, m);
    let mut scratch = Stats { shrinks: 1 << 20, ..Stats::default() };
    let start = Instant::now();
    'again: while n < 20_000 && start.elapsed().as_secs() < 60 {
        for c in p.smaller(&best.0) {
            n += 1;
            scratch.shrinks += 1;
            if start.elapsed().as_secs() >= 30 {
                break 'again;
            }
            if let Err(m) = at.beat.check(at.worker, p, cx, &c, &mut scratch) {
                best = (c, m);
                continue 'again;
            }
        }
        break;
    }
    (best.0, best.1, n)
}

fn work<P: Prop>(p: &P, cx: &Cx, beat: &Beat, worker: u64) -> (Stats, Option<Failure<P::Case>>) {
    let mut st = Stats::default();
    let at = At { beat, worker };
    beat.tids[worker as usize].store(own_tid(), Ordering::Relaxed);
    let start = Instant::now();
    for (i, c) in p.fixed(cx).into_iter().enumerate() {
        if i as u64 % WORKERS == worker {
            if let Err(m) = one(&at, p, cx, &c, &mut st, How::Generated) {
                let first = c.clone();
                let (case, m, shrinks) = by_hand(&at, p, cx, c, m, 0);
                return (st, Some(Failure { case, msg: m.0, worker, shrinks, first, before: vec![] }));
            }
        }
    }
    let mut failure = None;
    p.enumerate(cx, worker, WORKERS, &mut |c| match one(&at, p, cx, &c, &mut st, How::Enumerated) {
        Ok(()) => true,
        Err(m) => {
            let first = c.clone();
            let (case, m, shrinks) = by_hand(&at, p, cx, c, m, 0);
            failure = Some(Failure { case, msg: m.0, worker, shrinks, first, before: vec![] });
            false
        }
    });
    if failure.is_some() {
        return (st, failure);
    }
    let (q, t) = p.cases();
    let total = if cx.thorough() { t } else { q };
    let total = scale(total);
    let mine = total / WORKERS + u64::from(worker < total % WORKERS);
    let strat = p.strategy(cx);
    let mut r = runner(cx.seed, p.id(), worker);
    let mut before: Vec<P::Case> = vec![];
    for _ in 0..mine {
        if start.elapsed() > budget(cx) {
            *st.notes.entry("workers stopped by the time budget".into()).or_insert(0) += 1;
            break;
        }
        let tree = strat.new_tree(&mut r).expect("generator");
        let c = tree.current();
        if let Err(m) = one(&at, p, cx, &c, &mut st, How::Generated) {
            let (case, m, shrinks) = shrink(&at, p, cx, tree, m);
            return (st, Some(Failure { case, msg: m.0, worker, shrinks, first: c, before }));
        }
        if p.joins() {
            if before.len() >= 60 {
                before.drain(..20);
            }
            before.push(c);
        }
    }
    (st, None)
}

/// VHARNESS_SCALE (per cent) is for experiments; the registered commands do not set it.
fn scale(n: u64) -> u64 {
    match std::env::var("VHARNESS_SCALE").ok().and_then(|s| s.parse::<u64>().ok()) {
        Some(p) => (n * p / 100).max(WORKERS),
        None => n,
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub message: String,
    pub case: serde_json::Value,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

/// 0 held, 1 violation, 2 error.
pub fn run<P: Prop>(p: P, cx: &Cx) -> i32 {
    let start = Instant::now();
    if let Err(e) = p.prepare(cx) {
        eprintln!("ERROR: {}: {e}", p.id());
        return 2;
    }
    let beat = Beat::new(WORKERS);
    let p = Arc::new(p);
    let handles: Vec<_> = (0..WORKERS)
        .map(|w| {
            let (p, cx, beat) = (p.clone(), cx.clone(), beat.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || work(&*p, &cx, &beat, w))
                .unwrap()
        })
        .collect();
    let mut st = Stats::default();
    let mut failures = vec![];
    for h in handles {
        match h.join() {
            Ok((s, f)) => {
                st.merge(s);
                failures.extend(f);
            }
            Err(_) => {
                eprintln!("ERROR: {}: the harness itself panicked", p.id());
                return 2;
            }
        }
    }
    finish(&*p, cx, st, failures, start)
}

fn finish<P: Prop>(p: &P, cx: &Cx, mut st: Stats, mut failures: Vec<Failure<P::Case>>, start: Instant) -> i32 {
    let dir = verif_dir();
    st.samples.sort_by_key(|s| s.0);
    let mut samples: Vec<_> = vec![];
    for (_, s) in st.samples {
        if samples.len() < 30 && !samples.contains(&s) {
            samples.push(s);
        }
    }
    let mut cov = serde_json::json!({
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.distinct.len() as u64 + st.enumerated_nontrivial,
        "rule": p.rule(),
        "samples": samples,
        "classes": st.classes,
    });
    if st.enumerated > 0 {
        cov["enumerated_cases"] = st.enumerated.into();
        cov["exhaustive"] = (p.exhaustive() && failures.is_empty()).into();
    }
    if !st.notes.is_empty() {
        cov["notes"] = serde_json::to_value(&st.notes).unwrap();
    }
    if !st.known.is_empty() {
        cov["known_findings_seen"] = serde_json::to_value(&st.known).unwrap();
    }
    let ev = serde_json::json!({
        "property": p.id(),
        "tier": if cx.thorough() { "thorough" } else { "quick" },
        "seed": cx.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions(),
        "wall_s": (start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": failures.len(),
    });
    let ev_dir = dir.join("evidence");
    std::fs::create_dir_all(&ev_dir).expect("evidence directory");
    std::fs::write(
        ev_dir.join(format!("{}.json", p.id())),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence file");

    for k in cx.known.iter().filter(|k| k.property == p.id()) {
        let n = st.known.get(&k.key).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (seen {n} times in this run)", p.id(), k.what);
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} enumerated, {:.1} s",
        p.id(),
        st.evaluations,
        st.distinct.len() as u64 + st.enumerated_nontrivial,
        st.enumerated,
        start.elapsed().as_secs_f64()
    );
    for (k, v) in &st.classes {
        println!("    {k}: {v}");
    }
    if failures.is_empty() {
        return 0;
    }
    // the smallest reproduction first
    failures.sort_by_key(|f| (serde_json::to_string(&f.case).unwrap().len(), f.worker));
    let f = &failures[0];
    let rep = Replay {
        property: p.id().into(),
        seed: cx.seed,
        message: f.msg.clone(),
        case: serde_json::to_value(&f.case).unwrap(),
    };
    let rdir = dir.join("replays");
    std::fs::create_dir_all(&rdir).expect("replay directory");
    let path = rdir.join(format!("{}-{:016x}.json", p.id(), hash_of(&f.case)));
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").expect("replay file");
    // A failure that needs what earlier cases left behind does not show in a process of its
    // own. Then the case as it was found, or together with those before it or with what
    // other workers were at, may.
    if !again(&path) {
        let found: Vec<P::Case> = failures.iter().map(|f| f.first.clone()).collect();
        for (i, f) in failures.iter().enumerate() {
            let crowd = if i == 0 { p.crowd(&found) } else { None };
            let all = [Some(f.first.clone()), crowd, p.join(&f.before, &f.first)];
            for (k, c) in all.into_iter().flatten().enumerate() {
                let from = rdir.join(format!("{}-first{k}.json", p.id()));
                let r = Replay { case: serde_json::to_value(&c).unwrap(), message: f.msg.clone(), property: p.id().into(), seed: cx.seed };
                std::fs::write(&from, serde_json::to_string(&r).unwrap()).expect("replay file");
                let done = again(&from) && this().arg("report").arg(&from).status().is_ok_and(|s| s.code() == Some(1));
                let _ = std::fs::remove_file(&from);
                if done {
                    let _ = std::fs::remove_file(&path);
                    return 1;
                }
            }
        }
        println!("  (shows only after other cases of the run)");
    }
    println!("{} of {WORKERS} workers failed; smallest after {} shrink steps:", failures.len(), f.shrinks);
    println!("  case: {}", sample_json(&f.case));
    println!("  {}", f.msg);
    println!("VIOLATION property={} replay={}", p.id(), path.display());
    1
}

fn this() -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
    c.env("VHARNESS_CHILD", "1");
    c
}

/// Whether the case of a replay file fails in a process of its own.
fn again(path: &std::path::Path) -> bool {
    use std::process::Stdio;
    let s = this().arg("replay").arg(path).stdout(Stdio::null()).stderr(Stdio::null()).status();
    // by exit status or by death
    s.is_ok_and(|s| !matches!(s.code(), Some(0) | Some(2) | Some(3)))
}

/// Runs the one case of a replay file.
pub fn replay<P: Prop>(p: P, cx: &Cx, r: &Replay, path: &str) -> i32 {
    if let Err(e) = p.prepare(cx) {
        eprintln!("ERROR: {e}");
        return 2;
    }
    let case: P::Case = match serde_json::from_value(r.case.clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ERROR: unreadable case: {e}");
            return 2;
        }
    };
    let beat = Beat::new(1);
    let p = Arc::new(p);
    // on a stack as large as in a run
    let (p2, cx2) = (p.clone(), cx.clone());
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            beat.tids[0].store(own_tid(), Ordering::Relaxed);
            beat.check(0, &*p2, &cx2, &case, &mut Stats::default())
        })
        .unwrap()
        .join();
    let Ok(r) = r else {
        eprintln!("ERROR: {}: the harness itself panicked", p.id());
        return 2;
    };
    match r {
        Ok(()) => {
            println!("{}: the replayed case holds", p.id());
            0
        }
        Err(m) => {
            println!("  {}", m.0);
            println!("VIOLATION property={} replay={path}", p.id());
            1
        }
    }
}

/// Smaller variants of the case of a replay file, as replay files.
pub fn smaller_replays<P: Prop>(p: P, r: &Replay) -> Vec<Replay> {
    let Ok(case) = serde_json::from_value::<P::Case>(r.case.clone()) else { return vec![] };
    p.smaller(&case)
        .into_iter()
        .map(|c| Replay {
            property: r.property.clone(),
            seed: r.seed,
            message: r.message.clone(),
            case: serde_json::to_value(&c).unwrap(),
        })
        .collect()
}

#[derive(Deserialize)]
struct Findings {
    findings: Vec<Known>,
}

/// What VERIF_SEED, VERIF_TIER, the known findings and the sources under test say.
pub fn load_cx(seed: Option<u64>) -> Cx {
    crate::real::install_hook();
    let env = |n: &str| std::env::var(n).ok();
    let seed = seed.or_else(|| env("VERIF_SEED").and_then(|s| s.parse().ok())).unwrap_or(1);
    let tier = match env("VERIF_TIER").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let known = match std::fs::read_to_string(verif_dir().join("known_findings.json")) {
        Ok(s) => serde_json::from_str::<Findings>(&s).expect("known_findings.json").findings,
        Err(_) => vec![],
    };
    Cx { tier, seed, dict: Arc::new(Dict::load("/repo/src")), known: Arc::new(known) }
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
