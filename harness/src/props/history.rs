//! C25: histories of calls over live values, repeated and from several threads.

use super::encoders::check_encoding;
use crate::engine::{boxed, hash_of, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::*;
use crate::model::sym::{self, Sym};
use crate::real::{self, Fmt, ImgCfg, SvgCfg, Val};
use barcoders::generators::{ascii::ASCII, image as im, json::JSON, svg::SVG};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::HashMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum GenCfg {
    Ascii(usize, usize),
    Json(usize, usize),
    Svg(SvgCfg),
    Image(ImgCfg),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    /// make a value from text in one of several containers
    New { sym: Sym, text: String, container: u8 },
    /// text that may well be refused
    Try { sym: Sym, text: String },
    /// text that may well be refused, encoded at once if it is not, and dropped
    Fresh { sym: Sym, text: String },
    /// the same made, encoded and dropped, this many times
    FreshMany { sym: Sym, text: String, times: u32 },
    /// every beginning of the text, as it is typed
    Typed { sym: Sym, text: String },
    Encode(u16),
    EncodeMany(u16, u32),
    /// Code 39's checksum flag
    Toggle(u16),
    Drop(u16),
    NewGen(GenCfg),
    DropGen(u16),
    /// generator, value, container of the row
    Generate(u16, u16, u8),
    GenerateRow(u16, Vec<u8>),
    GenerateMany(u16, u16, u32),
    /// a generator made for one row, and dropped
    Once(GenCfg, Vec<u8>),
    /// the text given to every symbology in turn, from this one on
    Around(String, u8),
    /// threads, rounds: everything live, made anew and used, in several threads at once
    Parallel(u8, u8),
    /// value, threads, rounds: encoded by several threads at once, from the one value
    Lend(u16, u8, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Calls {
    pub steps: Vec<Step>,
    /// If not 0, this many threads of a new process take the steps, at the same moment
    /// and before anything else of the library was used in that process.
    #[serde(default)]
    pub cold: u8,
    /// Whether each of those threads begins at another step.
    #[serde(default)]
    pub turned: bool,
    /// Environment variables of that process.
    #[serde(default)]
    pub env: Vec<(String, String)>,
}

impl Calls {
    fn warm(steps: Vec<Step>) -> Calls {
        Calls { steps, cold: 0, turned: false, env: vec![] }
    }
}

/// How many new processes a cold case gets; more when one is replayed, for what shows
/// under some schedules only.
pub static TRIES: AtomicU32 = AtomicU32::new(1);

fn cold(c: &Calls, st: &mut Stats) -> Verdict {
    st.class("new process");
    st.nontrivial = true;
    let json = serde_json::to_string(c).unwrap();
    for _ in 0..TRIES.load(Ordering::Relaxed) {
        let o = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
            .args(["cold", &json])
            .envs(c.env.iter().map(|(k, v)| (k, v)))
            .stderr(Stdio::null())
            .output();
        let Ok(o) = o else {
            st.class("inconclusive: no new process");
            continue;
        };
        let said = String::from_utf8_lossy(&o.stdout);
        match (o.status.code(), said.trim()) {
            (Some(0), _) => {}
            (Some(1), said) if !said.is_empty() => fail!("in a new process, {} threads at once: {said}", c.cold),
            (Some(_), _) => st.class("inconclusive: no answer from the new process"),
            (None, _) => {
                if matches!(o.status.signal(), Some(4 | 6 | 7 | 8 | 11)) {
                    fail!("the new process, {} threads at once, dies of {}", c.cold, o.status);
                }
                st.class("inconclusive: no answer from the new process");
            }
        }
    }
    Ok(())
}

/// The new process.
pub fn cold_here(json: &str, cx: &Cx) -> i32 {
    let c: Calls = serde_json::from_str(json).expect("case");
    let n = c.cold.max(1) as usize;
    let ready = AtomicU32::new(0);
    let (c, ready) = (&c, &ready);
    let results: Vec<Verdict> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                sc.spawn(move || {
                    let mut steps = c.steps.clone();
                    if c.turned && n > 0 {
                        let by = t % steps.len().max(1);
                        steps.rotate_left(by);
                    }
                    let mut st = Stats::default();
                    let mut w = World::default();
                    ready.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while ready.load(Ordering::SeqCst) < n as u32 {
                        spins += 1;
                        if spins > 20_000 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    for s in &steps {
                        History.apply(cx, &mut w, s, &mut st)?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    for r in results {
        if let Err(f) = r {
            println!("{}", f.0);
            return 1;
        }
    }
    0
}

enum Gen {
    Ascii(ASCII),
    Json(JSON),
    Svg(SVG),
    Image(im::Image),
}

#[derive(PartialEq, Eq, Clone, Debug)]
enum Made {
    Text(String),
    Bytes(Vec<u8>),
    Buffer(u32, u32, Vec<u8>),
    Error(u8),
}

fn make(c: &GenCfg) -> Gen {
    match c {
        GenCfg::Ascii(height, xdim) => Gen::Ascii(ASCII { height: *height, xdim: *xdim }),
        GenCfg::Json(height, xdim) => Gen::Json(JSON { height: *height, xdim: *xdim }),
        GenCfg::Svg(c) => Gen::Svg(c.svg()),
        GenCfg::Image(c) => Gen::Image(c.image()),
    }
}

fn produce<T: AsRef<[u8]>>(g: &Gen, row: T) -> Result<Made, Fail> {
    real::guard("generate", || match g {
        Gen::Ascii(a) => a.generate(row).map(Made::Text),
        Gen::Json(a) => a.generate(row).map(Made::Text),
        Gen::Svg(a) => a.generate(row).map(Made::Text),
        Gen::Image(a) => match a {
            im::Image::ImageBuffer { .. } => a.generate_buffer(row).map(|b| Made::Buffer(b.width(), b.height(), b.into_raw())),
            _ => a.generate(row).map(Made::Bytes),
        },
    })
    .map(|r| r.unwrap_or_else(|e| Made::Error(real::err_bit(e))))
}

/// Bytes that lie in the middle of others, at any alignment.
struct Within(Vec<u8>, std::ops::Range<usize>);

impl Within {
    fn new(b: &[u8], k: u8) -> Within {
        let at = k as usize % 16 + 1;
        let mut v = vec![b'1'; at];
        v.extend(b);
        v.extend([1; 9]);
        Within(v, at..at + b.len())
    }
}
impl AsRef<[u8]> for Within {
    fn as_ref(&self) -> &[u8] {
        &self.0[self.1.clone()]
    }
}
impl AsRef<str> for Within {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(&self.0[self.1.clone()]).expect("text")
    }
}

/// The row in a container of kind `k`.
fn produce_in(g: &Gen, row: &[u8], k: u8) -> Result<Made, Fail> {
    match k % 9 {
        0 => produce(g, row),
        1 => produce(g, row.to_vec()),
        2 => produce(g, Box::<[u8]>::from(row)),
        3 => produce(g, &row.to_vec()),
        4 => produce(g, Cow::Borrowed(row)),
        5 => produce(g, Within::new(row, k / 9)),
        6 => produce(g, std::sync::Arc::<[u8]>::from(row)),
        7 => {
            // what was taken off stays in its memory
            let mut v = row.to_vec();
            v.extend([1, 0, 1, 1]);
            v.truncate(row.len());
            produce(g, v)
        }
        _ => produce(g, std::rc::Rc::new(row.to_vec()).as_slice()),
    }
}

fn new_in(s: Sym, t: &str, k: u8) -> Result<Result<Val, u8>, Fail> {
    real::guard("the constructor", || match k % 9 {
        0 => real::new_raw(s, t),
        1 => real::new_raw(s, t.to_string()),
        2 => real::new_raw(s, &t.to_string()),
        3 => real::new_raw(s, Cow::Borrowed(t)),
        4 => real::new_raw(s, Box::<str>::from(t)),
        5 => real::new_raw(s, &&t),
        6 => real::new_raw(s, Within::new(t.as_bytes(), k / 9)),
        7 => real::new_raw(s, std::sync::Arc::<str>::from(t)),
        _ => {
            let mut v = t.to_string();
            v.push_str("12 A");
            v.truncate(t.len());
            real::new_raw(s, v)
        }
    })
    .map(|r| r.map_err(real::err_bit))
}

fn right(c: &GenCfg, row: &[u8], m: &Made) -> Verdict {
    match (c, m) {
        (GenCfg::Ascii(h, x), Made::Text(t)) => check_ascii(row, *h, *x, t).map_err(Fail),
        (GenCfg::Json(h, x), Made::Text(t)) => check_json(row, *h as u64, *x as u64, t).map_err(Fail),
        (GenCfg::Svg(k), Made::Text(t)) => {
            let s = read_svg(t).map_err(Fail)?;
            if s.xmlns != k.xmlns {
                fail!("xmlns is {:?}, configured {:?}", s.xmlns, k.xmlns);
            }
            check_svg_geometry(row, k.height, k.xdim, k.fg, k.bg, &s).map_err(Fail)
        }
        (GenCfg::Image(k), Made::Buffer(w, h, px)) => {
            Raster { row, height: k.height, xdim: k.xdim, fg: k.fg, bg: k.bg, rot: k.rot }
                .compare(*w, *h, px, |a, b| a == b)
                .map_err(Fail)
        }
        (GenCfg::Image(k), Made::Bytes(b)) => {
            let p = real::decode_file(k.fmt, b)?;
            let gif = k.fmt == Fmt::Gif;
            Raster { row, height: k.height, xdim: k.xdim, fg: k.fg, bg: k.bg, rot: k.rot }
                .compare(p.w, p.h, &p.px, |a, b| {
                    if !gif {
                        a == b
                    } else if b[3] == 0 {
                        a[3] == 0
                    } else {
                        a[..3] == b[..3]
                    }
                })
                .map_err(Fail)
        }
        (GenCfg::Image(k), Made::Error(real::E_GEN)) if row.is_empty() || k.xdim == 0 || k.height == 0 => Ok(()),
        (c, m) => fail!("{c:?} gives {}", clip(m)),
    }
}

struct Live {
    sym: Sym,
    text: String,
    val: Val,
}

#[derive(Default)]
struct World {
    vals: Vec<Live>,
    gens: Vec<(GenCfg, Gen)>,
    /// what each call gave the first time
    rows: HashMap<(Sym, String), Vec<u8>>,
    outs: HashMap<(GenCfg, Vec<u8>), Made>,
}

impl World {
    fn row(&mut self, cx: &Cx, s: Sym, t: &str, r: Vec<u8>, st: &mut Stats) -> Result<Vec<u8>, Fail> {
        if r.len() > 200_000 {
            fail!("{} of {t:?} has {} modules", s.name(), r.len());
        }
        match self.rows.get(&(s, t.to_string())) {
            Some(p) if *p == r => {}
            Some(p) => fail!("{} of {t:?} changed between calls: {}", s.name(), row_diff(p, &r)),
            None => {
                check_encoding(cx, s, t, &r, st)?;
                self.rows.insert((s, t.to_string()), r.clone());
            }
        }
        Ok(r)
    }
    fn fresh(&mut self, cx: &Cx, s: Sym, t: &str, st: &mut Stats) -> Verdict {
        match (sym::accept(s, t), real::new(s, t)?) {
            (Ok(()), Ok(val)) => {
                let r = real::guard("encode", || val.encode_raw())?;
                self.row(cx, s, t, r, st).map(|_| ())
            }
            (Err(m), Err(e)) if m & e != 0 => Ok(()),
            (a, b) => fail!("{} {t:?}: expected {a:?}, got {:?}", s.name(), b.err().map(real::bit_name)),
        }
    }
    fn out(&mut self, c: &GenCfg, row: &[u8], m: Made) -> Verdict {
        match self.outs.get(&(c.clone(), row.to_vec())) {
            Some(p) if *p == m => Ok(()),
            Some(p) => fail!("{c:?} on {} changed between calls: {} then {}", row_str(row), clip(p), clip(&m)),
            None => {
                right(c, row, &m)?;
                self.outs.insert((c.clone(), row.to_vec()), m);
                Ok(())
            }
        }
    }
    fn encode(&mut self, cx: &Cx, i: usize, st: &mut Stats) -> Result<Vec<u8>, Fail> {
        let l = &self.vals[i];
        let r = real::guard("encode", || l.val.encode_raw())?;
        let (s, t) = (l.sym, l.text.clone());
        self.row(cx, s, &t, r, st)
    }
}

/// A text much like `t`: the same characters in another order, the same length, ends, sum
/// or exclusive or of the characters - what a careless key would not tell apart.
fn sibling(s: Sym, t: &str, kind: u8, a: u16, b: u16) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    if n == 0 {
        return String::new();
    }
    let alpha: Vec<char> = match s {
        Sym::Code128 => (' '..='_').collect(),
        _ => s.alphabet().chars().collect(),
    };
    let k = alpha.len();
    let at = |c: char| alpha.iter().position(|x| *x == c);
    let (i, j) = (a as usize % n, (a as usize + 1 + b as usize % 8) % n);
    let new = alpha[b as usize % k];
    match kind % 19 {
        0 => v.swap(i, j),
        1 => v.reverse(),
        2 => v.rotate_left(i),
        3 => v.rotate_left(n / 2),
        // one sum, other summands
        4 => {
            if let (Some(p), Some(q)) = (at(v[i]), at(v[j])) {
                if i != j && p + 1 < k && q > 0 {
                    v[i] = alpha[p + 1];
                    v[j] = alpha[q - 1];
                }
            }
        }
        // pairs of equal characters become pairs of others
        5 => {
            let old = v[i];
            v.iter_mut().filter(|c| **c == old).for_each(|c| *c = new);
        }
        6 => v[i] = new,
        7 => v[n / 2] = new,
        8 => return new.to_string().repeat(n),
        9 => v.sort_unstable(),
        // longer and shorter ones with the same beginning or end
        10 => {
            v.remove(0);
        }
        11 => v.push(new),
        12 => v.insert(0, new),
        13 => v.truncate(n.div_ceil(2)),
        14 => v.extend_from_within(..),
        15 | 16 if n >= 2 => {
            // one polynomial in the characters' codes, as hashes have it
            const BASES: [u32; 8] = [31, 33, 37, 10, 16, 7, 2, 17];
            let (i, base) = (i.min(n - 2), BASES[b as usize % 8]);
            let up = |c: char, d: u32| char::from_u32(c as u32 + d).filter(|c| alpha.contains(c));
            let down = |c: char, d: u32| char::from_u32((c as u32).saturating_sub(d)).filter(|c| alpha.contains(c));
            match (up(v[i], 1), down(v[i + 1], base), down(v[i], 1), up(v[i + 1], base)) {
                (Some(c), Some(d), ..) | (.., Some(c), Some(d)) => (v[i], v[i + 1]) = (c, d),
                _ => {
                    // another pair of the alphabet of one value each, if there is one
                    let m = alpha.iter().find_map(|&c| {
                        let d = up(c, 1)?;
                        let e = alpha.iter().copied().find(|&e| down(e, base).is_some())?;
                        Some((c, d, e))
                    });
                    if let Some((c, _, e)) = m {
                        (v[i], v[i + 1]) = (c, e);
                    }
                }
            }
        }
        17 if n >= 3 => {
            // one sum and one weighted sum, of positions in the alphabet
            let i = i.min(n - 3);
            if let (Some(p), Some(q), Some(r)) = (at(v[i]), at(v[i + 1]), at(v[i + 2])) {
                if p + 1 < k && q >= 2 && r + 1 < k {
                    (v[i], v[i + 1], v[i + 2]) = (alpha[p + 1], alpha[q - 2], alpha[r + 1]);
                } else if p > 0 && q + 2 < k && r > 0 {
                    (v[i], v[i + 1], v[i + 2]) = (alpha[p - 1], alpha[q + 2], alpha[r - 1]);
                }
            }
        }
        _ => {
            v.remove(i);
        }
    }
    v.into_iter().collect()
}

/// A generator much like `c`: one setting differs, two are exchanged, or it is another
/// kind with the same settings.
fn cfg_sibling(c: &GenCfg, kind: u8, a: u16, b: u16) -> GenCfg {
    let near = |n: u64| match a % 4 {
        0 => n.saturating_add(1),
        1 => n.saturating_sub(1),
        2 => n.saturating_mul(2),
        _ => n.saturating_add(256),
    };
    match c.clone() {
        GenCfg::Ascii(h, x) | GenCfg::Json(h, x) => {
            let (h, x) = match kind % 3 {
                0 => (near(h as u64) as usize, x),
                1 => (h, (x % 7 + 1 + a as usize % 3) % 7),
                _ if h <= 8 => (x, h),
                _ => (h, x),
            };
            match (c, b % 4 == 0) {
                (GenCfg::Ascii(..), false) | (GenCfg::Json(..), true) => GenCfg::Ascii(h.min(1000), x.min(40)),
                _ => GenCfg::Json(h, x),
            }
        }
        GenCfg::Svg(mut k) => {
            let (i, v) = (b as usize % 4, a as u8);
            match kind % 8 {
                0 => k.height = near(k.height as u64) as u32,
                1 => k.xdim = (k.xdim % 7 + 1 + a as u32 % 3) % 7,
                2 => std::mem::swap(&mut k.height, &mut k.xdim),
                3 => k.fg[i] ^= v,
                4 => k.bg[i] ^= v,
                5 => std::mem::swap(&mut k.fg, &mut k.bg),
                6 => {
                    k.xmlns = match k.xmlns {
                        None => Some(String::new()),
                        Some(n) if b % 2 == 0 => Some(n + "x"),
                        Some(_) => None,
                    }
                }
                _ => {
                    return GenCfg::Image(ImgCfg {
                        fmt: Fmt::Buf, height: k.height.min(40), xdim: k.xdim.min(8), rot: Rot::R0, fg: k.fg, bg: k.bg
                    })
                }
            }
            GenCfg::Svg(k)
        }
        GenCfg::Image(mut k) => {
            let (i, v) = (b as usize % 4, a as u8);
            match kind % 8 {
                0 => k.height = (near(k.height as u64) as u32).min(300),
                1 => k.xdim = (k.xdim % 7 + 1 + a as u32 % 3) % 7,
                2 if k.height < 9 => std::mem::swap(&mut k.height, &mut k.xdim),
                2 | 3 => k.fg[i] ^= v,
                4 => k.bg[i] ^= v,
                5 => std::mem::swap(&mut k.fg, &mut k.bg),
                6 => k.rot = crate::model::render::ROTS[(crate::model::render::ROTS.iter().position(|r| *r == k.rot).unwrap() + 1 + b as usize % 3) % 4],
                _ => k.fmt = real::FMTS[(real::FMTS.iter().position(|f| *f == k.fmt).unwrap() + 1 + b as usize % 3) % 4],
            }
            GenCfg::Image(k)
        }
    }
}

/// Another picture of the same width, or the same number of pixels: the first half of the
/// row twice as wide, each module two or three times but narrower, or twice as high.
fn same_area(c: &GenCfg, r: &[u8], kind: u8, b: u16) -> (GenCfg, Vec<u8>) {
    let (mut c, mut r) = (c.clone(), r.to_vec());
    let k = 2 + b as usize % 2;
    let x = match &c {
        GenCfg::Ascii(_, x) | GenCfg::Json(_, x) => *x,
        GenCfg::Svg(k) => k.xdim as usize,
        GenCfg::Image(k) => k.xdim as usize,
    };
    let mut high = 1;
    let to = match kind % 4 {
        0 if x < 8 => {
            r.truncate(r.len() / k);
            x * k
        }
        1 if x % k == 0 => {
            r = if b % 4 < 2 { r.repeat(k) } else { r.iter().flat_map(|m| std::iter::repeat_n(*m, k)).collect() };
            x / k
        }
        2 if x % k == 0 => {
            high = k;
            x / k
        }
        _ => {
            high = k;
            r.truncate(r.len() / k);
            x
        }
    };
    match &mut c {
        GenCfg::Ascii(h, x) | GenCfg::Json(h, x) => (*h, *x) = (h.saturating_mul(high).min(1000), to),
        GenCfg::Svg(s) => (s.height, s.xdim) = (s.height.saturating_mul(high as u32), to as u32),
        GenCfg::Image(s) => (s.height, s.xdim) = (s.height.saturating_mul(high as u32).min(300), to as u32),
    }
    (c, r)
}

/// Names of environment variables: common ones, and the literals that look like one.
fn env_names(cx: &Cx) -> Vec<String> {
    let common = "LANG LC_ALL LC_CTYPE TZ TERM NO_COLOR COLUMNS LINES DEBUG VERBOSE CI HOME USER RUST_LOG RUST_BACKTRACE SOURCE_DATE_EPOCH";
    let mut v: Vec<String> = common.split(' ').map(String::from).collect();
    v.extend(
        cx.dict
            .strings
            .iter()
            .filter(|s| {
                s.len() > 2
                    && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
                    && !s.starts_with(|c: char| c.is_ascii_digit())
                    && !s.starts_with("LD_")
                    && !s.starts_with("VHARNESS")
                    && *s != "VERIF_DIR"
            })
            .take(400)
            .cloned(),
    );
    v
}

const ENV_VALUES: [&str; 7] = ["1", "0", "true", "", "C", "de_DE.UTF-8", "7"];

/// A row much like `r`.
fn row_sibling(r: &[u8], kind: u8, a: u16, b: u16) -> Vec<u8> {
    let mut v = r.to_vec();
    let n = v.len();
    if n == 0 {
        return v;
    }
    let (i, j) = (a as usize % n, b as usize % n);
    match kind % 13 {
        0 => v.swap(i, j),
        1 => v.reverse(),
        2 => v.rotate_left(i),
        3 => v[i] ^= 1,
        4 => {
            v[i] ^= 1;
            v[j] ^= 1;
        }
        5 => v.sort_unstable(),
        6 => v.truncate(n.div_ceil(2)),
        7 => v.push(b as u8 & 1),
        8 => v.extend_from_within(..),
        9 => {
            v.remove(0);
        }
        10 => v[0] ^= 1,
        11 => v[n - 1] ^= 1,
        _ => v.insert(0, a as u8 & 1),
    }
    v
}

pub struct History;

impl History {
    fn apply(&self, cx: &Cx, w: &mut World, s: &Step, st: &mut Stats) -> Verdict {
        let nv = w.vals.len();
        let ng = w.gens.len();
        match s {
            Step::New { sym, text, container } => {
                match new_in(*sym, text, *container)? {
                    Ok(val) => w.vals.push(Live { sym: *sym, text: text.clone(), val }),
                    Err(e) => fail!("{} refuses {text:?} ({}), which is valid", sym.name(), real::bit_name(e)),
                }
                if w.vals.len() > 12 {
                    w.vals.remove(0);
                }
            }
            Step::Try { sym, text } => match (sym::accept(*sym, text), real::new(*sym, text)?) {
                (Ok(()), Ok(val)) => w.vals.push(Live { sym: *sym, text: text.clone(), val }),
                (Err(m), Err(e)) if m & e != 0 => {}
                (a, b) => fail!("{} {text:?}: expected {a:?}, got {:?}", sym.name(), b.err().map(real::bit_name)),
            },
            Step::Fresh { sym, text } => w.fresh(cx, *sym, text, st)?,
            Step::FreshMany { sym, text, times } => {
                w.fresh(cx, *sym, text, st)?;
                let once = || real::guard("making and encoding", || real::new_raw(*sym, &text[..]).map(|v| v.encode_raw()).map_err(real::err_bit));
                let first = once()?;
                for k in 1..*times {
                    if once()? != first {
                        fail!("{} {text:?} made for the {}th time in a row gives another result", sym.name(), k + 2);
                    }
                }
            }
            Step::Typed { sym, text } => {
                let mut t = String::new();
                for c in text.chars() {
                    t.push(c);
                    w.fresh(cx, *sym, &t, st)?;
                }
            }
            Step::Encode(i) if nv > 0 => {
                w.encode(cx, *i as usize % nv, st)?;
            }
            Step::EncodeMany(i, n) if nv > 0 => {
                let i = *i as usize % nv;
                let first = w.encode(cx, i, st)?;
                for k in 1..*n {
                    let l = &w.vals[i];
                    let r = real::guard("encode", || l.val.encode_raw())?;
                    if r != first {
                        fail!("encoding {} {:?} for the {}th time in a row gives another row: {}", l.sym.name(), l.text, k + 1, row_diff(&first, &r));
                    }
                }
            }
            Step::Toggle(i) if nv > 0 => {
                let l = &mut w.vals[*i as usize % nv];
                if let Val::Code39(c) = &mut l.val {
                    c.checksum = !c.checksum;
                    l.sym = if c.checksum { Sym::Code39Check } else { Sym::Code39 };
                    st.class("checksum flag toggled");
                }
            }
            Step::Drop(i) if nv > 0 => {
                w.vals.remove(*i as usize % nv);
            }
            Step::NewGen(c) => {
                w.gens.push((c.clone(), real::guard("making a generator", || make(c))?));
                if w.gens.len() > 8 {
                    w.gens.remove(0);
                }
            }
            Step::DropGen(i) if ng > 0 => {
                w.gens.remove(*i as usize % ng);
            }
            Step::Generate(g, i, k) if ng > 0 && nv > 0 => {
                let row = w.encode(cx, *i as usize % nv, st)?;
                let (c, g) = &w.gens[*g as usize % ng];
                let m = produce_in(g, &row, *k)?;
                let c = c.clone();
                w.out(&c, &row, m)?;
            }
            Step::GenerateRow(g, row) if ng > 0 => {
                let (c, g) = &w.gens[*g as usize % ng];
                let m = produce_in(g, row, hash_of(row) as u8)?;
                let c = c.clone();
                w.out(&c, row, m)?;
            }
            Step::GenerateMany(g, i, n) if ng > 0 && nv > 0 => {
                let row = w.encode(cx, *i as usize % nv, st)?;
                let (c, g) = &w.gens[*g as usize % ng];
                let first = produce(g, &row[..])?;
                let mut left = *n;
                if let GenCfg::Image(k) = c {
                    let pixels = u64::from(k.height) * u64::from(k.xdim) * row.len() as u64;
                    left = left.min(20 + (if k.fmt == Fmt::Buf { 400_000_000 } else { 40_000_000 } / (pixels + 2000)) as u32);
                }
                for k in 1..left {
                    let m = produce(g, &row[..])?;
                    if m != first {
                        fail!("{c:?} for the {}th time in a row gives {} instead of {}", k + 1, clip(&m), clip(&first));
                    }
                }
                let c = c.clone();
                w.out(&c, &row, first)?;
            }
            Step::Once(c, row) => {
                let m = produce_in(&make(c), row, hash_of(row) as u8)?;
                w.out(c, row, m)?;
            }
            Step::Around(text, first) => {
                for k in 0..sym::ALL.len() {
                    w.fresh(cx, sym::ALL[(k + *first as usize) % sym::ALL.len()], text, st)?;
                }
            }
            Step::Parallel(threads, rounds) if nv > 0 => {
                st.class("parallel step");
                // every thread makes its own values and generators, from the same data
                let jobs: Vec<(Sym, String)> = w.vals.iter().map(|l| (l.sym, l.text.clone())).collect();
                let mut expect = vec![];
                for (s, t) in &jobs {
                    let r = real::must_encode(*s, t)?;
                    expect.push(w.row(cx, *s, t, r, st)?);
                }
                let cfgs: Vec<GenCfg> = w.gens.iter().map(|g| g.0.clone()).collect();
                let mut outs: Vec<Vec<Made>> = vec![];
                for c in &cfgs {
                    let g = make(c);
                    let mut v = vec![];
                    for r in &expect {
                        let m = produce(&g, &r[..])?;
                        w.out(c, r, m.clone())?;
                        v.push(m);
                    }
                    outs.push(v);
                }
                let n = 2 + *threads as usize % 3;
                let rounds = 1 + *rounds as usize % 8;
                let (jobs, expect, cfgs, outs) = (&jobs, &expect, &cfgs, &outs);
                let barrier = &std::sync::Barrier::new(n);
                let results: Vec<Verdict> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|t| {
                            sc.spawn(move || -> Verdict {
                                barrier.wait();
                                for round in 0..rounds {
                                    for k in 0..jobs.len() {
                                        // each thread in its own order
                                        let k = (k * (1 + t % 2) + t + round) % jobs.len();
                                        let (s, text) = &jobs[k];
                                        let r = real::must_encode(*s, text)?;
                                        if r != expect[k] {
                                            fail!("in thread {t} of {n}, {} of {text:?}: {}", s.name(), row_diff(&expect[k], &r));
                                        }
                                        if !cfgs.is_empty() {
                                            let g = (k + round + t) % cfgs.len();
                                            let m = produce(&make(&cfgs[g]), &r[..])?;
                                            if m != outs[g][k] {
                                                fail!("in thread {t} of {n}, {:?} gives {} instead of {}", cfgs[g], clip(&m), clip(&outs[g][k]));
                                            }
                                        }
                                    }
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
                });
                for r in results {
                    r?;
                }
            }
            Step::Lend(i, threads, rounds) if nv > 0 => {
                st.class("value shared by threads");
                let i = *i as usize % nv;
                let l = &w.vals[i];
                let n = 2 + *threads as usize % 3;
                let got = l.val.encode_shared(n, 1 + *rounds as usize % 8);
                let expect = w.encode(cx, i, st)?;
                let l = &w.vals[i];
                for r in got.into_iter().flatten() {
                    let r = r?;
                    if r != expect {
                        fail!("{} of {:?}, encoded by {n} threads at once from one value: {}", l.sym.name(), l.text, row_diff(&expect, &r));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

impl Prop for History {
    type Case = Calls;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "histories of 1..40 groups of steps over pools of up to 12 live values and 8 live generators: construct (nine string containers), refused constructions, every beginning of a text in turn, texts, rows and settings followed by others of the same length, characters, sum or ends or with one setting changed, one text given to every symbology in turn, encode once or up to 5000 times (fixed cases: each symbology made, refused and encoded a million times), toggle Code 39's flag, generate (nine byte containers) once or many times, drop, and parallel steps in 2-4 threads, which make their own values or share one; one case in 13 is taken by 1-6 threads at the same moment as the first thing a new process does, some with environment variables set. Every result is compared with the reference model and with the first result of the same call. Non-trivial: at least two values alive and at least three results produced, or a new process."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 900_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Calls> {
        let i = any::<u16>;
        let gencfg = {
            let (h, x) = (gen::size(cx, 8), gen::size(cx, 4));
            let (h2, x2) = (h.clone(), x.clone());
            let ns = prop_oneof![2 => Just(None), 1 => gen::namespace(cx).prop_map(Some)];
            prop_oneof![
                2 => (h.clone(), x.clone()).prop_map(|(h, x)| GenCfg::Ascii(h, x)),
                2 => (h.clone(), x.clone()).prop_map(|(h, x)| GenCfg::Json(h, x)),
                2 => (h.clone(), x.clone(), gen::colours(), ns).prop_map(|(h, x, (fg, bg), xmlns)| GenCfg::Svg(SvgCfg {
                    height: h as u32, xdim: x as u32, fg, bg, xmlns
                })),
                2 => (h2, x2, gen::colours(), gen::rot(), select(&real::FMTS[..])).prop_map(|(h, x, (fg, bg), rot, fmt)| GenCfg::Image(ImgCfg {
                    fmt, height: h as u32, xdim: x as u32, rot, fg, bg
                })),
            ]
        };
        let (gencfg, cx2) = (boxed(gencfg), cx.clone());
        let gencfg2 = gencfg.clone();
        let all_text: Vec<BoxedStrategy<String>> = sym::ALL.iter().map(|s| gen::any_text(cx, *s)).collect();
        let bad = select((0..all_text.len()).collect::<Vec<_>>())
            .prop_flat_map(move |k| all_text[k].clone().prop_map(move |t| (sym::ALL[k], t)))
            .prop_map(|(sym, text)| Step::Try { sym, text: text.chars().take(300).collect() });
        let step = prop_oneof![
            8 => (gen::sym_text(cx, true), any::<u8>()).prop_map(|((sym, text), container)| Step::New { sym, text, container }),
            1 => (gen::sym_text(cx, false), any::<u8>()).prop_map(|((sym, text), container)| Step::New { sym, text, container }),
            3 => bad,
            8 => i().prop_map(Step::Encode),
            1 => (i(), prop_oneof![9 => 2u32..300, 1 => 2u32..5000]).prop_map(|(a, n)| Step::EncodeMany(a, n)),
            2 => i().prop_map(Step::Toggle),
            2 => i().prop_map(Step::Drop),
            3 => gencfg.clone().prop_map(Step::NewGen),
            1 => i().prop_map(Step::DropGen),
            8 => (i(), i(), any::<u8>()).prop_map(|(g, v, k)| Step::Generate(g, v, k)),
            3 => (i(), gen::row(cx, 60)).prop_map(|(g, r)| Step::GenerateRow(g, r)),
            1 => (i(), i(), 2u32..300).prop_map(|(g, v, n)| Step::GenerateMany(g, v, n)),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(t, r)| Step::Parallel(t, r)),
            2 => (i(), any::<u8>(), any::<u8>()).prop_map(|(v, t, r)| Step::Lend(v, t, r)),
        ];
        let fresh = |(sym, text): (Sym, String)| Step::Fresh { sym, text };
        let runs = (gen::any_sym(), i(), 2usize..24, i()).prop_map(|(s, a, n, k)| {
            // the characters over and over, so that swaps and exchanges hit equal ones
            let alpha: Vec<char> = if s == Sym::Code128 { ('0'..='Z').collect() } else { s.alphabet().chars().collect() };
            let two = [alpha[a as usize % alpha.len()], alpha[(a >> 8) as usize % alpha.len()]];
            let t: String = (0..n).map(|i| two[(k >> (i % 16)) as usize & 1]).collect();
            (s, if s == Sym::Code128 { format!("\u{181}{t}") } else { t })
        });
        let twins = (
            prop_oneof![2 => gen::sym_text(cx, true), 1 => runs],
            proptest::collection::vec((any::<u8>(), i(), i()), 1..4),
            any::<bool>(),
        )
            .prop_map(move |((s, t), kinds, back)| {
                let mut v = vec![fresh((s, t.clone()))];
                let mut last = t.clone();
                for (k, a, b) in kinds {
                    last = sibling(s, &last, k, a, b);
                    v.push(fresh((s, last.clone())));
                }
                if back {
                    v.push(fresh((s, t)));
                }
                v
            });
        let rows = (i(), prop_oneof![3 => gen::row(cx, 60), 1 => gen::row(cx, 300)], proptest::collection::vec((any::<u8>(), i(), i()), 1..4)).prop_map(|(g, r, kinds)| {
            let mut v = vec![Step::GenerateRow(g, r.clone())];
            let mut last = r.clone();
            for (k, a, b) in kinds {
                last = row_sibling(&last, k, a, b);
                v.push(Step::GenerateRow(g, last.clone()));
            }
            v.push(Step::GenerateRow(g, r));
            v
        });
        let (cx3, gencfg3) = (cx.clone(), gencfg2.clone());
        let cfgs = (gencfg3, prop_oneof![3 => gen::row(&cx3, 60), 1 => gen::row(&cx3, 300)], proptest::collection::vec((any::<u8>(), i(), i()), 1..4), any::<bool>()).prop_map(
            |(c, r, kinds, back)| {
                let mut v = vec![Step::Once(c.clone(), r.clone())];
                let (mut last, mut row) = (c.clone(), r.clone());
                for (k, a, b) in kinds {
                    match k / 32 {
                        0 => row = row_sibling(&row, k, a, b),
                        1 => (last, row) = same_area(&last, &row, k, b),
                        _ => last = cfg_sibling(&last, k, a, b),
                    }
                    v.push(Step::Once(last.clone(), row.clone()));
                }
                if back {
                    v.push(Step::Once(c, r));
                }
                v
            },
        );
        let around = (gen::sym_text(cx, true), any::<u8>()).prop_map(|((_, t), k)| vec![Step::Around(t, k)]);
        let typed = (gen::sym_text(cx, true), any::<bool>()).prop_map(|((sym, text), all)| {
            let text: String = text.chars().take(if all { 40 } else { 4 }).collect();
            Step::Typed { sym, text }
        });
        let steps = prop_oneof![
            30 => step.prop_map(|s| vec![s]),
            2 => twins,
            1 => rows,
            1 => cfgs,
            1 => around,
            1 => typed.prop_map(|s| vec![s]),
        ];
        let first = prop_oneof![
            6 => gen::sym_text(cx, true).prop_map(move |t| vec![fresh(t)]),
            1 => gencfg2.prop_flat_map(move |c| gen::row(&cx2, 60).prop_map(move |r| vec![Step::NewGen(c.clone()), Step::GenerateRow(0, r)])),
        ];
        let names = env_names(cx);
        let env = prop_oneof![
            2 => Just(vec![]),
            1 => (proptest::collection::vec(select(names), 1..=8), select(&ENV_VALUES[..]))
                .prop_map(|(n, v)| n.into_iter().map(|n| (n, v.to_string())).collect()),
        ];
        let cold = (proptest::collection::vec(first, 1..=4), 1u8..=6, any::<bool>(), env)
            .prop_map(|(s, cold, turned, env)| Calls { steps: s.concat(), cold, turned, env });
        boxed(prop_oneof![
            12 => proptest::collection::vec(steps, 1..=40).prop_map(|steps| Calls::warm(steps.concat())),
            1 => cold,
        ])
    }
    fn fixed(&self, cx: &Cx) -> Vec<Calls> {
        // every symbology: encoded and made over a million times (past counters of
        // 16 and of 20 bits)
        let texts = [
            (Sym::Ean13, "978345612345"),
            (Sym::Bookland, "978345612345"),
            (Sym::Jan, "493456123456"),
            (Sym::Ean8, "5512345"),
            (Sym::Upca, "72527273070"),
            (Sym::Supp, "34"),
            (Sym::Supp, "51234"),
            (Sym::Code39, "TEST8052"),
            (Sym::Code39Check, "983RD512"),
            (Sym::Code93, "PROBLEMS-99"),
            (Sym::Code11, "1234-5678-4321"),
            (Sym::Usd8, "12-34"),
            (Sym::Codabar, "A40156D"),
            (Sym::Itf, "1234567"),
            (Sym::Stf, "1234567"),
            (Sym::Code128, "\u{181}xyZ\u{C0}199!*1\u{106}\u{179}1299"),
        ];
        let mut v: Vec<Calls> = texts
            .iter()
            .map(|(sym, t)| {
                Calls::warm(vec![
                    Step::New { sym: *sym, text: t.to_string(), container: 0 },
                    Step::Lend(0, 2, 7),
                    Step::EncodeMany(0, 1_050_000),
                    Step::EncodeMany(0, 5000),
                ])
            })
            .chain(texts.iter().map(|(sym, t)| Calls::warm(vec![Step::FreshMany { sym: *sym, text: t.to_string(), times: 1_050_000 }])))
            .chain(texts.iter().map(|(sym, t)| Calls::warm(vec![Step::FreshMany { sym: *sym, text: format!("{t}\u{e9}"), times: 1_050_000 }])))
            .chain([(Sym::Ean13, "9783456123450"), (Sym::Ean8, "55123450"), (Sym::Upca, "725272730700"), (Sym::Jan, "4934561234560"), (Sym::Supp, "345"), (Sym::Ean13, "97834")].map(
                |(sym, t)| {
                    // a wrong check digit, whatever the right one is
                    let text = match sym::accept(sym, t) {
                        Ok(()) => t[..t.len() - 1].to_string() + "1",
                        Err(_) => t.to_string(),
                    };
                    Calls::warm(vec![Step::FreshMany { sym, text, times: 1_050_000 }])
                },
            ))
            .collect();
        let gens = [
            GenCfg::Ascii(2, 2),
            GenCfg::Json(2, 2),
            GenCfg::Svg(SvgCfg { height: 3, xdim: 2, fg: [1, 2, 3, 4], bg: [5, 6, 7, 8], xmlns: Some("a".into()) }),
            GenCfg::Image(ImgCfg { fmt: Fmt::Buf, height: 2, xdim: 2, rot: Rot::R90, fg: [1, 2, 3, 4], bg: [5, 6, 7, 8] }),
        ];
        for g in &gens {
            v.push(Calls::warm(vec![
                Step::NewGen(g.clone()),
                Step::New { sym: Sym::Supp, text: "34".into(), container: 1 },
                Step::GenerateMany(0, 0, if matches!(g, GenCfg::Image(_)) { 180_000 } else { 1_050_000 }),
                Step::GenerateMany(0, 0, 2),
            ]));
            // the first use of each in a process, by one thread and by several at once
            for cold in [1, 2, 3, 4, 6] {
                let steps = vec![Step::NewGen(g.clone()), Step::GenerateRow(0, vec![1, 0, 1, 1, 0, 0, 1])];
                v.push(Calls { steps, cold, turned: false, env: vec![] });
            }
        }
        for (sym, t) in texts {
            for cold in [1, 2, 2, 3, 3, 4, 6] {
                v.push(Calls { steps: vec![Step::Fresh { sym, text: t.to_string() }], cold, turned: false, env: vec![] });
            }
        }
        // everything once, with variables set in the environment
        let all: Vec<Step> = texts
            .iter()
            .map(|(sym, t)| Step::Fresh { sym: *sym, text: t.to_string() })
            .chain(gens.iter().map(|g| Step::Once(g.clone(), vec![1, 0, 1, 1, 0, 0, 1])))
            .collect();
        for value in ENV_VALUES {
            let env = env_names(cx).into_iter().map(|n| (n, value.to_string())).collect();
            v.push(Calls { steps: all.clone(), cold: 1, turned: false, env });
        }
        v.push(Calls::warm(
            texts
                .iter()
                .map(|(sym, t)| Step::New { sym: *sym, text: t.to_string(), container: 3 })
                .chain([Step::Parallel(2, 7), Step::Encode(3), Step::Parallel(2, 7)])
                .collect(),
        ));
        v
    }
    fn smaller(&self, c: &Calls) -> Vec<Calls> {
        let n = c.steps.len();
        let mut v = vec![];
        if c.cold > 0 {
            v.push(Calls { cold: 0, ..c.clone() });
        }
        if c.cold > 1 {
            v.push(Calls { cold: c.cold - 1, ..c.clone() });
        }
        if c.turned {
            v.push(Calls { turned: false, ..c.clone() });
        }
        let mut k = c.env.len();
        while k >= 1 {
            for i in (0..c.env.len()).step_by(k) {
                let mut d = c.clone();
                d.env.drain(i..(i + k).min(d.env.len()));
                v.push(d);
            }
            k /= 2;
        }
        let mut k = n / 2;
        while k >= 1 {
            for i in (0..n).step_by(k) {
                let mut d = c.clone();
                d.steps.drain(i..(i + k).min(n));
                v.push(d);
            }
            k /= 2;
        }
        for (i, s) in c.steps.iter().enumerate().filter(|_| n <= 6) {
            if let Step::Typed { sym, text } | Step::Fresh { sym, text } = s {
                for t in gen::smaller_text(text, '0').into_iter().take(40) {
                    let mut d = c.clone();
                    d.steps[i] = Step::Fresh { sym: *sym, text: t };
                    v.push(d);
                }
            }
        }
        v
    }
    fn joins(&self) -> bool {
        true
    }
    fn join(&self, before: &[Calls], c: &Calls) -> Option<Calls> {
        if c.cold > 0 {
            return None;
        }
        let steps = before.iter().filter(|c| c.cold == 0).chain([c]).flat_map(|c| c.steps.iter().cloned()).collect();
        Some(Calls::warm(steps))
    }
    fn crowd(&self, c: &[Calls]) -> Option<Calls> {
        let steps = c.iter().filter(|c| c.cold == 0).take(6).flat_map(|c| c.steps.iter().cloned()).collect();
        Some(Calls { steps, cold: 4, turned: true, env: vec![] })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["real threads are scheduled by the operating system; the schedules are sampled, not enumerated".into()]
    }
    fn check(&self, cx: &Cx, c: &Calls, st: &mut Stats) -> Verdict {
        if c.cold > 0 {
            return cold(c, st);
        }
        let mut w = World::default();
        let mut most = 0;
        for (n, s) in c.steps.iter().enumerate() {
            self.apply(cx, &mut w, s, st).map_err(|f| Fail(format!("step {}: {}", n + 1, f.0)))?;
            most = most.max(w.vals.len());
        }
        // every value still alive gives what it gave before
        for i in 0..w.vals.len() {
            w.encode(cx, i, st).map_err(|f| Fail(format!("at the end: {}", f.0)))?;
        }
        st.add("steps", c.steps.len() as u64);
        st.nontrivial = most >= 2 && w.rows.len() + w.outs.len() >= 3;
        Ok(())
    }
}
