//! C26: feature combinations and build profiles.

use crate::engine::{boxed, verif_dir, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::{clip, Rgba};
use crate::model::sym::{self, Sym};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    /// this combination of features compiles
    Build(Vec<String>),
    /// the public tables
    Tables,
    Encode(Sym, String),
    Ascii(Vec<u8>, u32, u32),
    Json(Vec<u8>, u64, u64),
    Svg(Vec<u8>, u32, u32, Rgba, Rgba, Option<String>),
    /// format (0 PNG, 1 GIF, 2 WebP, 3 buffer), row, height, X dimension, quarter turns, colours
    Image(u8, Vec<u8>, u32, u32, u8, Rgba, Rgba),
}

const FEATURES: [&str; 5] = ["std", "ascii", "json", "svg", "image"];

/// Built besides the 32 combinations in debug: these without overflow checks and optimised.
const RELEASE: [&[&str]; 4] = [&["std", "ascii", "json", "svg"], &["ascii", "json", "svg"], &[], &FEATURES];

/// A configuration that was built, and its program.
struct Built {
    name: String,
    program: PathBuf,
}

static COMBOS: OnceLock<Mutex<Vec<(Vec<String>, Result<(), String>)>>> = OnceLock::new();
static BINARIES: OnceLock<Vec<Built>> = OnceLock::new();

pub struct Config;

fn probe_dir() -> PathBuf {
    verif_dir().join("probe")
}

fn cargo(args: &[&str], target: &str, features: &str) -> Result<(), String> {
    let mut c = Command::new("cargo");
    c.current_dir(probe_dir())
        .args(args)
        .args(["--offline", "--quiet", "--no-default-features", "--features", features])
        .arg("--target-dir")
        .arg(probe_dir().join("target").join(target))
        .env("CARGO_INCREMENTAL", "0")
        .stdin(Stdio::null());
    let o = c.output().map_err(|e| format!("cargo: {e}"))?;
    if o.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&o.stderr);
    let mut m: String = e.lines().filter(|l| !l.trim().is_empty()).take(60).collect::<Vec<_>>().join("\n");
    if m.is_empty() {
        m = format!("cargo ended with {}", o.status);
    }
    Err(m)
}

fn subsets() -> Vec<Vec<String>> {
    (0..32u32)
        .map(|b| FEATURES.iter().enumerate().filter(|(i, _)| b >> i & 1 == 1).map(|(_, f)| f.to_string()).collect())
        .collect()
}

struct Proc {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Which probe a worker waits for: its process and the processor time it had used when it
/// was asked, (0, 0) for none. One that takes too long is killed, which is its answer.
static WAITING: Mutex<Vec<(u32, u64)>> = Mutex::new(vec![]);
/// Processor seconds for one answer; they take milliseconds.
const LIMIT: u64 = 30;

/// Processor time of a process, in hundredths of a second.
fn cpu(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(") ")?.1.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn watch() {
    std::thread::spawn(|| {
        let mut seen: Vec<(u32, u64, u64)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            // held while killing, so that the process is still that of the slot
            let waiting = WAITING.lock().unwrap();
            seen.resize(waiting.len(), (0, 0, 0));
            for (s, (pid, n)) in seen.iter_mut().zip(waiting.iter()) {
                let Some(c) = cpu(*pid) else { continue };
                if *pid == 0 || (s.0, s.1) != (*pid, *n) {
                    *s = (*pid, *n, c);
                } else if c > s.2 + LIMIT * 100 {
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                }
            }
        }
    });
}

thread_local! {
    static SLOT: usize = {
        let mut w = WAITING.lock().unwrap();
        w.push((0, 0));
        w.len() - 1
    };
    static ASKED: Cell<u64> = const { Cell::new(0) };
    static PROCS: RefCell<Vec<Proc>> = const { RefCell::new(vec![]) };
}

fn start(p: &PathBuf) -> Proc {
    let mut child = Command::new(p)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("starting a probe");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Proc { child, to, from }
}

static FAILED: AtomicBool = AtomicBool::new(false);

/// The answers of the configurations: of all that were built for the first requests of a
/// thread (a replay among them), a quarter of the rest and all after a failure, otherwise
/// of the first eleven.
fn ask(line: &str) -> Vec<(&'static str, String)> {
    let n = ASKED.replace(ASKED.get() + 1);
    let everyone = n < 200 || n % 4 == 0 || FAILED.load(Ordering::Relaxed);
    PROCS.with(|p| {
        let mut p = p.borrow_mut();
        let bins = BINARIES.get().expect("prepared");
        if p.is_empty() {
            p.extend(bins.iter().map(|b| start(&b.program)));
        }
        let count = if everyone { bins.len() } else { bins.len().min(11) };
        for q in p[..count].iter_mut() {
            let _ = q.to.write_all(line.as_bytes()).and_then(|_| q.to.write_all(b"\n")).and_then(|_| q.to.flush());
        }
        let mut out = vec![];
        for (q, b) in p[..count].iter_mut().zip(bins) {
            let mut a = String::new();
            let wait = |pid| SLOT.with(|s| WAITING.lock().unwrap()[*s] = (pid, n));
            wait(q.child.id());
            let read = q.from.read_line(&mut a);
            wait(0);
            match read {
                Ok(n) if n > 0 => out.push((&b.name[..], a.trim_end().to_string())),
                _ => {
                    // the probe died (stack overflow, abort): start a new one
                    out.push((&b.name[..], "died".into()));
                    *q = start(&b.program);
                }
            }
        }
        out
    })
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn request(c: &Case) -> String {
    match c {
        Case::Build(_) => unreachable!(),
        Case::Tables => "t".into(),
        Case::Encode(s, t) => format!("e {} {}", s.name(), hex(t.as_bytes())),
        Case::Ascii(r, h, x) => format!("a {} {h} {x}", hex(r)),
        Case::Json(r, h, x) => format!("j {} {h} {x}", hex(r)),
        Case::Svg(r, h, x, f, b, n) => format!(
            "s {} {h} {x} {} {} {}",
            hex(r),
            hex(f),
            hex(b),
            match n {
                None => "-".into(),
                Some(n) if n.is_empty() => "x".into(),
                Some(n) => format!("x{}", hex(n.as_bytes())),
            }
        ),
        Case::Image(k, r, h, x, t, f, b) => format!("i {k} {} {h} {x} {t} {} {}", hex(r), hex(f), hex(b)),
    }
}

impl Prop for Config {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "all 32 feature combinations are built, in debug, with a probe that names the public items of each enabled feature, and four of them (default, no_std, none, all) also in release without overflow checks; generated inputs (accepted, nearly accepted and arbitrary texts for every constructor; rows, sizes, colours, rotations and namespaces for the generators; long data) are sent to the 36 and the answers of those that have the feature compared (a quarter of the cases; the others go to eleven of them). Non-trivial: an encoding or output that succeeds, or a refusal of non-empty text."
    }
    fn cases(&self) -> (u64, u64) {
        (40_000, 800_000)
    }
    fn prepare(&self, _cx: &Cx) -> Result<(), String> {
        let results: Mutex<Vec<(Vec<String>, Result<(), String>)>> = Mutex::new(vec![]);
        let built: Mutex<Vec<(usize, Built)>> = Mutex::new(vec![]);
        let to = probe_dir().join("target").join("programs");
        std::fs::create_dir_all(&to).map_err(|e| format!("{}: {e}", to.display()))?;
        let mut all: Vec<(Vec<String>, bool)> = subsets().into_iter().map(|c| (c, false)).collect();
        all.extend(RELEASE.iter().map(|c| (c.iter().map(|f| f.to_string()).collect(), true)));
        // the programs that are always asked come first
        let usual: [&[&str]; 7] =
            [&["std", "ascii", "json", "svg"], &["ascii", "json", "svg"], &[], &["std"], &FEATURES, &["std", "image"], &["image"]];
        all.sort_by_key(|(c, release)| match usual.iter().position(|u| c == u) {
            Some(p) => (p, *release),
            None => (usual.len(), *release),
        });
        std::thread::scope(|s| {
            // a directory per thread keeps cargo's locks apart, and the image crate's
            // build is wanted in few of them
            for t in 0..8usize {
                let (all, results, built, to) = (&all, &results, &built, &to);
                s.spawn(move || {
                    for (i, (c, release)) in all.iter().enumerate() {
                        let has = |f: &str| usize::from(c.iter().any(|x| x == f));
                        let lane = if *release { 6 + has("image") } else if has("image") == 1 { 2 + 2 * has("svg") + has("std") } else { has("svg") };
                        if lane != t {
                            continue;
                        }
                        let f = c.join(",");
                        let (profile, args): (_, &[&str]) =
                            if *release { ("release", &["build", "--bin", "probe", "--release"]) } else { ("debug", &["build", "--bin", "probe"]) };
                        let dir = format!("lane{t}");
                        let mut r = cargo(args, &dir, &f);
                        if r.is_ok() {
                            let program = to.join(format!("probe{i}"));
                            let from = probe_dir().join("target").join(dir).join(profile).join("probe");
                            // the old file may be running: another takes its name
                            let new = to.join(format!("probe{i}.{}", std::process::id()));
                            match std::fs::copy(from, &new).and_then(|_| std::fs::rename(&new, &program)) {
                                Ok(()) => built.lock().unwrap().push((i, Built { name: format!("features [{f}], {profile}"), program })),
                                Err(e) => r = Err(format!("copying the probe: {e}")),
                            }
                        }
                        if !release {
                            results.lock().unwrap().push((c.clone(), r));
                        }
                    }
                });
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort();
        if results.iter().all(|r| r.1.is_err()) {
            return Err(format!("no combination of features builds:\n{}", results[0].1.as_ref().unwrap_err()));
        }
        let mut built = built.into_inner().unwrap();
        built.sort_by_key(|b| b.0);
        let _ = COMBOS.set(Mutex::new(results));
        watch();
        let _ = BINARIES.set(built.into_iter().map(|b| b.1).collect());
        Ok(())
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Case> {
        let mut v: Vec<Case> = subsets().into_iter().map(Case::Build).collect();
        v.push(Case::Tables);
        for s in [Sym::Itf, Sym::Stf, Sym::Code39Check, Sym::Code93, Sym::Code11] {
            for n in [85, 86, 99, 255, 256, 257] {
                v.push(Case::Encode(s, "9".repeat(n)));
            }
        }
        v.push(Case::Encode(Sym::Code128, "\u{181}".to_string() + &"~".repeat(9000)));
        v.push(Case::Encode(Sym::Code93, "]".repeat(256)));
        v.push(Case::Encode(Sym::Code39Check, "%".repeat(256)));
        // the defaults, which some probes take from the constructors
        for r in [vec![], vec![1], vec![1, 0, 1], gen::long_row(70)] {
            v.push(Case::Ascii(r.clone(), 10, 1));
            v.push(Case::Json(r.clone(), 10, 1));
            v.push(Case::Svg(r.clone(), 80, 1, [0, 0, 0, 255], [255; 4], None));
            for k in 0..4 {
                v.push(Case::Image(k, r.clone(), 80, 1, 0, [0, 0, 0, 255], [255; 4]));
            }
        }
        for (r, x, h) in gen::sweep(130, 3, 9) {
            v.push(Case::Ascii(r.clone(), h as u32, x as u32));
            v.push(Case::Json(r.clone(), h as u64, x as u64));
            v.push(Case::Svg(r, h as u32, x as u32, [0, 0, 0, 255], [255; 4], None));
        }
        for n in gen::LONG.into_iter().chain([1_050_001]) {
            let r = gen::long_row(n);
            v.push(Case::Ascii(r.clone(), 2, 2));
            v.push(Case::Json(r.clone(), 2, 2));
            let r = if n > 200_000 { gen::sparse_row(n) } else { r };
            v.push(Case::Svg(r, 2, 2, [0, 0, 0, 255], [255; 4], None));
        }
        for h in [0, 1, u32::MAX] {
            for x in [0, 1, 1 << 31, u32::MAX] {
                v.push(Case::Svg(vec![1, 0, 1], h, x, [0, 0, 0, 255], [255; 4], None));
            }
        }
        v
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Case> {
        let texts: Vec<BoxedStrategy<String>> = sym::ALL.iter().map(|s| gen::any_text(cx, *s)).collect();
        let texts = (0..texts.len()).prop_flat_map(move |k| texts[k].clone().prop_map(move |t| Case::Encode(sym::ALL[k], t)));
        let ns = prop_oneof![2 => Just(None), 1 => gen::namespace(cx).prop_map(Some)];
        let row = || prop_oneof![9 => gen::row(cx, 60), 1 => gen::row(cx, 2500)];
        let number = prop_oneof![1 => any::<u64>(), 1 => gen::any_u32(cx).prop_map(u64::from)];
        let s = |m| gen::size(cx, m).prop_map(|x| x as u32);
        boxed(prop_oneof![
            8 => gen::sym_text(cx, false).prop_map(|(s, t)| Case::Encode(s, t)),
            5 => texts,
            1 => gen::c128_long(8000).prop_map(|t| Case::Encode(Sym::Code128, t)),
            2 => (row(), s(30), s(30), gen::ties()).prop_map(|(r, h, x, t)| {
                let (h, x) = gen::tie(r.len(), h as usize, x as usize, t, 200_000);
                Case::Ascii(r, h as u32, x as u32)
            }),
            2 => (row(), number, gen::any_u32(cx), gen::ties()).prop_map(|(r, h, x, t)| {
                let (h, x) = gen::tie(r.len(), h as usize, x as usize, t, u64::MAX);
                Case::Json(r, h as u64, x as u64)
            }),
            3 => (row(), gen::any_u32(cx), gen::any_u32(cx), gen::colours(), ns, gen::ties()).prop_map(|(r, h, x, (f, b), n, t)| {
                let (h, x) = gen::tie(r.len(), h as usize, x as usize, t, u64::MAX);
                Case::Svg(r, h.min(u32::MAX as usize) as u32, x.min(u32::MAX as usize) as u32, f, b, n)
            }),
            1 => (0..4u8, gen::row(cx, 40), s(12), s(4), 0..4u8, gen::colours(), gen::ties()).prop_map(|(k, r, h, x, t, (f, b), how)| {
                let (h, x) = gen::tie(r.len(), h as usize, x as usize, how, 20_000);
                Case::Image(k, r, h as u32, x as u32, t, f, b)
            }),
        ])
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Encode(s, t) => gen::smaller_text(t, '0').into_iter().map(|t| Case::Encode(*s, t)).collect(),
            _ => vec![],
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a configuration that fails to compile while another compiles breaks the property; if none compiles the check is in error".into()]
    }
    fn check(&self, _cx: &Cx, c: &Case, st: &mut Stats) -> Verdict {
        if let Case::Build(f) = c {
            st.class("feature combination");
            st.nontrivial = true;
            let combos = COMBOS.get().expect("prepared").lock().unwrap();
            let r = combos.iter().find(|r| &r.0 == f).ok_or("no such combination")?;
            return r.1.clone().map_err(|e| Fail(format!("barcoders does not build, or lacks public items, with features {f:?}:\n{e}")));
        }
        st.class(match c {
            Case::Encode(..) => "encoder",
            Case::Tables => "tables",
            Case::Ascii(..) => "ASCII",
            Case::Json(..) => "JSON",
            Case::Svg(..) => "SVG",
            _ => "image",
        });
        let answers: Vec<(&str, String)> = ask(&request(c)).into_iter().filter(|a| a.1 != "absent").collect();
        // panics count as the same whatever their message
        let key = |a: &str| if a.starts_with("panic") { "panic".to_string() } else { a.to_string() };
        let Some((first, a)) = answers.first() else { return Ok(()) };
        st.class(match &a[..a.len().min(2)] {
            "ok" => "succeeds",
            "er" => "is refused",
            _ => "neither",
        });
        st.nontrivial = a.starts_with("ok") || matches!(c, Case::Encode(_, t) if !t.is_empty());
        for (n, b) in &answers[1..] {
            if key(a) != key(b) {
                FAILED.store(true, Ordering::Relaxed);
                fail!("{c}: with {first}: {}; with {n}: {}", clip(a), clip(b), c = clip(c));
            }
        }
        Ok(())
    }
}
