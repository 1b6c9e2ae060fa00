use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vharness::engine::{hash_of, load_cx, verif_dir, Replay, HANG};
use vharness::props;

#[global_allocator]
static ALLOCATOR: vharness::meter::Counting = vharness::meter::Counting;

/// Memory for a worker: a case takes megabytes, a few in the thorough tier gigabytes.
fn cap() {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    vharness::meter::CAP.store(if thorough { 12 << 30 } else { 3 << 30 }, std::sync::atomic::Ordering::Relaxed);
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let child = std::env::var_os("VHARNESS_CHILD").is_some();
    let code = match args.iter().map(|s| &s[..]).collect::<Vec<_>>()[..] {
        ["list"] => {
            println!("{}", props::IDS.join("\n"));
            0
        }
        // for coverage-guided fuzzing: a corpus to start from, the case of a byte string,
        // a failing case made smaller and reported
        ["seeds", id, dir] => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            vharness::fuzz::seeds(id, seed, Path::new(dir));
            0
        }
        ["case", id, file] => match vharness::fuzz::case_of(id, Path::new(file)) {
            Some(r) => {
                println!("{}", serde_json::to_string(&r).unwrap());
                0
            }
            None => 2,
        },
        ["report", file] => report(load(Path::new(file)).expect("replay file")),
        ["huge", case] => {
            vharness::real::install_hook();
            props::accept::huge_here(case);
            0
        }
        ["vast", case] => {
            vharness::real::install_hook();
            props::picture::vast_here(case);
            0
        }
        ["cold", case] => props::history::cold_here(case, &load_cx(None)),
        ["prepare", id] => props::prepare_id(id, &load_cx(None)),
        ["run", id] if child => {
            watchdog();
            cap();
            props::run_id(id, &load_cx(None))
        }
        ["replay", path] if child => {
            watchdog();
            cap();
            props::history::TRIES.store(200, std::sync::atomic::Ordering::Relaxed);
            let r = load(Path::new(path)).expect("replay file");
            props::replay_id(&r, &load_cx(Some(r.seed)), path)
        }
        ["run", id] => supervise(id),
        ["replay", path] => {
            let code = status(this().args(["replay", path]));
            if died(code) {
                println!("  the process dies or never ends (status {code})");
                println!("VIOLATION property={} replay={path}", load(Path::new(path)).expect("replay file").property);
                1
            } else {
                code
            }
        }
        _ => {
            eprintln!("usage: vharness run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn load(path: &Path) -> Option<Replay> {
    serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()
}

fn this() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.env("VHARNESS_CHILD", "1");
    c
}

/// Exit status, or minus the signal.
fn status(c: &mut Command) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let s = c.status().expect("start of the harness");
    s.code().unwrap_or_else(|| -s.signal().unwrap_or(0))
}

/// Whether the code under test took the process with it: an abort (also of a stack
/// overflow or an allocation that is refused), a memory or arithmetic fault, or a case
/// without end.
fn died(code: i32) -> bool {
    matches!(code, HANG | -4 | -6 | -7 | -8 | -11)
}

/// Runs the property in a child. If that dies, runs it again with every case written
/// down before it is checked, replays what the workers were at, each in a process of
/// its own, and reports the smallest case that does it again.
fn supervise(id: &str) -> i32 {
    let code = status(this().args(["run", id]));
    if !died(code) {
        return if code < 0 { 2 } else { code };
    }
    eprintln!("{id}: the process died or did not end (status {code}); looking for the case");
    let dir = verif_dir().join("replays").join(format!("trace-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace directory");
    status(this().args(["run", id]).env("VHARNESS_TRACE", &dir));
    let mut files: Vec<PathBuf> =
        std::fs::read_dir(&dir).expect("trace directory").filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    let mut kids: Vec<_> = files
        .iter()
        .map(|f| this().arg("replay").arg(f).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("replay"))
        .collect();
    let mut bad: Vec<Replay> = vec![];
    for (f, k) in files.iter().zip(&mut kids) {
        use std::os::unix::process::ExitStatusExt;
        let s = k.wait().expect("replay");
        if died(s.code().unwrap_or_else(|| -s.signal().unwrap_or(0))) {
            bad.extend(load(f));
        }
    }
    let size = |r: &Replay| r.case.to_string().len();
    bad.sort_by_key(size);
    let _ = std::fs::remove_dir_all(&dir);
    match bad.into_iter().next() {
        Some(worst) => report(worst),
        None => {
            eprintln!("ERROR: {id}: no single case makes the process die");
            2
        }
    }
}

/// 1 violated, 0 held; the process died counts as violated.
fn replayed(path: &Path) -> (bool, String) {
    let o = this().arg("replay").arg(path).stderr(Stdio::null()).output().expect("replay");
    use std::os::unix::process::ExitStatusExt;
    let code = o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(0));
    if died(code) {
        return (true, "the process dies or never ends".into());
    }
    (code == 1, String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").trim().into())
}

/// Shrinks a failing case in processes of its own, within a minute, and reports it.
fn report(mut best: Replay) -> i32 {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let start = Instant::now();
    let tmp = dir.join(format!("try-{}.json", std::process::id()));
    let fails = |r: &Replay| {
        std::fs::write(&tmp, serde_json::to_string(r).unwrap()).expect("replay file");
        replayed(&tmp)
    };
    let (bad, message) = fails(&best);
    if !bad {
        eprintln!("ERROR: {}: a case did not fail again", best.property);
        let _ = std::fs::remove_file(&tmp);
        return 2;
    }
    best.message = message;
    'again: while start.elapsed() < Duration::from_secs(60) {
        for mut r in props::smaller(&best) {
            if start.elapsed() > Duration::from_secs(60) {
                break;
            }
            let (bad, message) = fails(&r);
            if bad {
                r.message = message;
                best = r;
                continue 'again;
            }
        }
        break;
    }
    let _ = std::fs::remove_file(&tmp);
    let id = &best.property;
    let path = dir.join(format!("{id}-{:016x}.json", hash_of(&best.case.to_string())));
    std::fs::write(&path, serde_json::to_string_pretty(&best).unwrap() + "\n").expect("replay file");
    println!("  case: {}", best.case.to_string().chars().take(1500).collect::<String>());
    println!("  {}", best.message);
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

/// A run that does not end is an error of the check, never a violation.
fn watchdog() {
    let limit = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 6 * 3600 } else { 840 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("ERROR: inconclusive: no verdict after {limit} s");
        std::process::exit(3);
    });
}
