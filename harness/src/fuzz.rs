//! Coverage-guided fuzzing of the properties: libFuzzer's bytes are the case. Settings
//! come first, text or row last; what is no case of the property is mended or skipped.

use crate::engine::{load_cx, Cx, Prop, Replay, Stats};
use crate::gen::{c128_text, text, with_check, TEMPTING};
use crate::model::sym::{self, Sym};
use crate::props::{accept::NOT_128, picture::limit};
use crate::real::Fmt;
use crate::with_prop;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use std::cell::OnceCell;
use std::path::Path;

struct Data<'a>(&'a [u8]);

impl Data<'_> {
    fn byte(&mut self) -> u8 {
        match self.0.split_first() {
            Some((b, rest)) => {
                self.0 = rest;
                *b
            }
            None => 0,
        }
    }
    fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.byte() as usize % v.len()]
    }
    /// One to eight bytes, little endian.
    fn number(&mut self) -> u64 {
        let n = [1, 1, 2, 4, 8][self.byte() as usize % 5];
        (0..n).fold(0, |t, i| t | (self.byte() as u64) << (8 * i))
    }
    fn u32(&mut self) -> u32 {
        self.number() as u32
    }
    fn colour(&mut self) -> [u8; 4] {
        let a = self.byte();
        [self.byte(), self.byte(), self.byte(), if a < 128 { 255 } else { self.byte() }]
    }
    fn rest(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.0).to_vec()
    }
    /// One byte per module.
    fn row(&mut self) -> Vec<u8> {
        self.rest().into_iter().map(|b| b & 1).collect()
    }
    /// What is left, in two.
    fn halves(&mut self) -> (Vec<u8>, Vec<u8>) {
        let at = self.byte() as usize;
        let v = self.rest();
        let at = at.min(v.len());
        (v[..at].to_vec(), v[at..].to_vec())
    }
}

const HIGH: [char; 9] =
    [sym::MARK_A, sym::MARK_B, sym::MARK_C, sym::FNC1, sym::FNC2, sym::FNC3, sym::FNC4, sym::SHIFT, sym::DIVIDE];

/// ASCII for itself; above it markers and characters that tempt an encoder.
fn any_char(b: u8) -> char {
    if b < 128 {
        return b as char;
    }
    let i = (b - 128) as usize;
    let odd: Vec<char> = TEMPTING.chars().filter(|c| !c.is_ascii()).collect();
    *HIGH.get(i).unwrap_or(&odd[i % odd.len()])
}

/// Bytes to a text the symbology accepts, each byte for itself where that can be.
fn accepted(s: Sym, b: &[u8]) -> String {
    if s == Sym::Code128 {
        return accepted_128(b);
    }
    let a: Vec<char> = s.alphabet().chars().collect();
    let mut t: Vec<char> =
        b.iter().map(|b| if a.contains(&(*b as char)) { *b as char } else { a[*b as usize % a.len()] }).collect();
    if let Some(n) = s.retail_len() {
        let full = t.len() > n;
        t.resize(n, '0');
        let t: String = t.into_iter().collect();
        return if full { with_check(&t) } else { t };
    }
    if s == Sym::Supp {
        t.resize(if t.len() > 2 { 5 } else { 2 }, '0');
    }
    t.resize(t.len().clamp(1, 256), a[0]);
    t.into_iter().collect()
}

fn accepted_128(b: &[u8]) -> String {
    let marks = [sym::MARK_A, sym::MARK_B, sym::MARK_C];
    let mut set = 3;
    let mut half = false;
    let mut s = String::new();
    for &b in b {
        let c = any_char(b);
        let m = marks.iter().position(|x| *x == c);
        if set == 3 {
            set = m.unwrap_or(b as usize % 3);
            s.push(marks[set]);
            if m.is_some() {
                continue;
            }
        }
        if set == 2 {
            if half {
                s.push(if c.is_ascii_digit() { c } else { (b'0' + b % 10) as char });
                half = false;
                continue;
            }
            if c.is_ascii_digit() {
                s.push(c);
                half = true;
                continue;
            }
            if c == sym::FNC1 {
                s.push(c);
                continue;
            }
        }
        if let Some(m) = m {
            if m != set {
                set = m;
                s.push(c);
            }
            continue;
        }
        let ok = match set {
            0 => b < 96 || (sym::FNC1..=sym::SHIFT).contains(&c),
            1 => (32..128).contains(&b) || (sym::FNC1..=sym::SHIFT).contains(&c) || c == sym::DIVIDE,
            _ => false,
        };
        if ok {
            s.push(c);
        }
    }
    if half {
        s.push('0');
    }
    match s.chars().count() {
        0 => "\u{181}a".into(),
        1 => s + "00",
        _ => s,
    }
}

const RETAIL: [Sym; 5] = [Sym::Ean13, Sym::Ean8, Sym::Upca, Sym::Bookland, Sym::Jan];
const ROT: [&str; 4] = ["R0", "R90", "R180", "R270"];
const FMT: [Fmt; 4] = [Fmt::Gif, Fmt::Png, Fmt::Webp, Fmt::Buf];

fn syms(id: &str) -> &'static [Sym] {
    match id {
        "C01" => &[Sym::Ean13, Sym::Bookland, Sym::Jan],
        "C02" => &[Sym::Ean8],
        "C03" => &[Sym::Upca],
        "C04" => &[Sym::Supp],
        "C06" => &[Sym::Code39, Sym::Code39Check],
        "C07" => &[Sym::Code93],
        "C08" => &[Sym::Code11, Sym::Usd8],
        "C09" | "C10" => &[Sym::Code128],
        "C11" => &[Sym::Codabar],
        "C12" => &[Sym::Itf],
        "C13" => &[Sym::Stf],
        "C05" | "C28" => &RETAIL,
        "C14" => &NOT_128,
        "C15" | "C24" => &sym::ALL,
        _ => &[],
    }
}

fn markup(b: u8) -> char {
    match b {
        32..=126 => b as char,
        0..=31 => ['&', '<', '>', '"', '\'', '=', '/', ':'][b as usize % 8],
        _ => ['\u{A0}', '\u{E9}', '\u{3B1}', '\u{4E2D}', '\u{1F600}', '\u{2028}', '\u{FFFD}'][b as usize % 7],
    }
}

/// The case that the bytes spell, as in a replay file. None: no case.
fn case(id: &str, cx: &Cx, d: &mut Data) -> Option<Value> {
    Some(match id {
        "C10" | "C14" => {
            let s = d.of(syms(id));
            let text: String = d.rest().into_iter().map(any_char).collect();
            if id == "C10" {
                json!({"sym": s, "text": text})
            } else {
                json!({"sym": s, "ones": 0, "text": text})
            }
        }
        "C05" | "C28" => {
            let s = d.of(syms(id));
            let t = accepted(s, &d.rest());
            json!({"sym": s, "data": &t[..s.retail_len()?]})
        }
        "C15" => {
            let s = d.of(syms(id));
            let (a, b) = d.halves();
            json!({"sym": s, "a": accepted(s, &a), "b": accepted(s, &b)})
        }
        "C16" => {
            let (height, xdim, row) = (d.number() % 70_000, d.number() % 70_000, d.row());
            if (height + 1) * (xdim + 1) * (row.len() as u64 + 1) > 30_000 {
                return None;
            }
            json!({"row": row, "height": height, "xdim": xdim})
        }
        "C17" => {
            let (height, xdim) = (d.number(), d.number());
            json!({"height": height, "xdim": xdim, "row": d.row()})
        }
        "C18" | "C19" => {
            let (height, xdim, fg, bg) = (d.u32(), d.u32(), d.colour(), d.colour());
            // sizes of C19 are small
            let (height, xdim) = if id == "C19" { (height % 100, xdim % 9 + 1) } else { (height, xdim) };
            let (ns, row) = if d.byte() % 2 == 0 { (None, d.rest()) } else {
                let (a, b) = d.halves();
                (Some(a.into_iter().map(markup).collect::<String>()), b)
            };
            let row: Vec<u8> = row.into_iter().map(|b| b & 1).collect();
            json!({"row": row, "cfg": {"height": height, "xdim": xdim, "fg": fg, "bg": bg, "xmlns": ns}})
        }
        "C20" | "C21" | "C22" | "C23" => {
            let fmt = d.of(&FMT);
            let rot = d.of(&ROT);
            let (height, xdim, fg, bg) = (d.u32(), d.u32(), d.colour(), d.colour());
            let row = d.row();
            let (w, h) = (row.len() as u64 * xdim as u64, height as u64);
            if w.max(1).saturating_mul(h.max(1)) > 30_000 && (id != "C23" || w <= u32::MAX as u64) {
                return None;
            }
            if id != "C23" && (w.max(h) > limit(fmt).min(65_535) - 10 || xdim > 70_000) {
                return None;
            }
            // a buffer may have no pixels, and these must have some
            if (w == 0 || h == 0) && (id == "C22" || id == "C21" && fmt != Fmt::Buf) || id == "C22" && fmt == Fmt::Buf {
                return None;
            }
            if id == "C23" && w > 1 << 20 && h == 0 && w <= u32::MAX as u64 {
                return None;
            }
            let rot = if id == "C20" { "R0" } else { rot };
            json!({"row": row, "cfg": {"fmt": fmt, "height": height, "xdim": xdim, "rot": rot, "fg": fg, "bg": bg}})
        }
        "C24" => {
            let s = d.of(syms(id));
            let out = [json!("Ascii"), json!("Json"), json!("Svg"), json!({"Image": "Gif"}), json!({"Image": "Png"}), json!({"Image": "Webp"}), json!({"Image": "Buf"})]
                [d.byte() as usize % 7].clone();
            let rot = d.of(&ROT);
            let (height, xdim) = (d.u32() % 40 + 1, d.u32() % 12 + 1);
            let (mut fg, mut bg) = (d.colour(), d.colour());
            if fg[..3] == bg[..3] {
                fg[0] ^= 0x40;
            }
            (fg[3], bg[3]) = (fg[3].max(128), 255);
            let text = crate::props::journey::standard_codabar(cx, s, accepted(s, &d.rest()));
            if text.len() as u32 * 15 * height * xdim * xdim > 60_000 {
                return None;
            }
            json!({"sym": s, "text": text, "out": out, "height": height, "xdim": xdim, "rot": rot, "fg": fg, "bg": bg})
        }
        "C27" => {
            let height = d.u32();
            let calls: Vec<Value> = (0..d.byte() % 8)
                .map(|_| match d.byte() % 6 {
                    0 => json!({"Xdim": d.u32()}),
                    1 => json!({"Foreground": d.colour()}),
                    2 => json!({"Background": d.colour()}),
                    3 => {
                        let n = d.byte() % 32;
                        json!({"Xmlns": (0..n).map(|_| markup(d.byte())).collect::<String>()})
                    }
                    4 => json!("Clone"),
                    _ => json!("Generate"),
                })
                .collect();
            let row = d.row();
            if row.len() > 60 {
                return None;
            }
            json!({"height": height, "calls": calls, "row": row})
        }
        "C25" | "C26" | "C30" => return None,
        _ => {
            let s = d.of(syms(id));
            json!({"sym": s, "text": accepted(s, &d.rest())})
        }
    })
}

/// Whether the property is one whose cases bytes can spell.
pub fn can(id: &str) -> bool {
    !["C25", "C26", "C30"].contains(&id)
}

type Target = Box<dyn Fn(&[u8]) -> Option<Replay>>;

fn judge<P: Prop>(p: P, cx: Cx) -> Box<dyn Fn(&Value) -> Option<String>> {
    Box::new(move |v| {
        let c: P::Case = serde_json::from_value(v.clone()).expect("a case of the property");
        p.check(&cx, &c, &mut Stats::default()).err().map(|m| m.0)
    })
}

fn replay(id: &str, cx: &Cx, message: String, case: Value) -> Replay {
    Replay { property: id.into(), seed: cx.seed, message, case }
}

fn target(id: String) -> Target {
    let cx = load_cx(None);
    let j = with_prop!(&id[..], p => judge(p, cx.clone()), panic!("no property {id}"));
    Box::new(move |data| {
        let v = case(&id, &cx, &mut Data(data))?;
        j(&v).map(|m| replay(&id, &cx, m, v))
    })
}

/// One execution; a case that breaks the property is written to VERIF_FUZZ_OUT.
pub fn one(data: &[u8]) {
    thread_local!(static T: OnceCell<Target> = const { OnceCell::new() });
    T.with(|t| {
        let t = t.get_or_init(|| target(std::env::var("VERIF_PROPERTY").expect("VERIF_PROPERTY")));
        if let Some(r) = t(data) {
            let path = std::env::var("VERIF_FUZZ_OUT").expect("VERIF_FUZZ_OUT");
            std::fs::write(path, serde_json::to_string(&r).unwrap()).expect("replay file");
            std::process::exit(77);
        }
    })
}

/// The case of a byte string on which the process died, not judged here.
pub fn case_of(id: &str, file: &Path) -> Option<Replay> {
    let (cx, b) = (load_cx(None), std::fs::read(file).ok()?);
    case(id, &cx, &mut Data(&b)).map(|v| replay(id, &cx, "the process dies or never ends".into(), v))
}

/// A start for the corpus: settings at random, then generated texts or rows.
pub fn seeds(id: &str, seed: u64, dir: &Path) {
    let cx = load_cx(Some(seed));
    let mut r = crate::engine::runner(seed, id, 1000);
    let s = syms(id);
    for i in 0..48usize {
        let mut b = vec![];
        if s.is_empty() {
            b.resize(24 + i * 3, 0);
            r.rng().fill_bytes(&mut b);
        } else {
            b.push(i as u8);
            if id == "C24" {
                b.extend([0; 14].map(|_: u8| r.rng().random::<u8>()));
            }
            let k = s[i % s.len()];
            let t = if k == Sym::Code128 { c128_text(&cx, 12).boxed() } else { text(&cx, k) };
            let t = t.new_tree(&mut r).expect("text").current();
            let t: Vec<u8> = t
                .chars()
                .map(|c| match HIGH.iter().position(|h| *h == c) {
                    Some(i) => 128 + i as u8,
                    None => c as u8,
                })
                .collect();
            if id == "C15" {
                b.push(t.len() as u8 / 2);
            }
            b.extend(t);
        }
        std::fs::write(dir.join(format!("{i}")), b).expect("corpus");
    }
    // the case must be one that replays; a mistake here is found at the start
    for f in std::fs::read_dir(dir).expect("corpus") {
        let b = std::fs::read(f.expect("corpus").path()).expect("corpus");
        if let Some(v) = case(id, &cx, &mut Data(&b)) {
            with_prop!(id, p => known_shape(&p, &v), ());
        }
    }
}

fn known_shape<P: Prop>(_: &P, v: &Value) {
    let _: P::Case = serde_json::from_value(v.clone()).expect("a case of the property");
}
