//! C29: what a call costs, and that nothing of it stays.

use super::history::GenCfg;
use crate::engine::{boxed, Cx, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::meter;
use crate::model::render::*;
use crate::model::sym::{self, Sym};
use crate::real::{self, Fmt, ImgCfg, SvgCfg, FMTS};
use barcoders::generators::{ascii::ASCII, json::JSON};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Something to do from beginning to end, its results dropped.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Work {
    /// make a value, encode it twice
    Encode(Sym, String),
    Generate(GenCfg, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Costs {
    /// the same over and over
    Again(Work),
    /// many different ones of a kind
    Stream { kind: u8, seed: u64 },
    /// one of a kind, twice as large each time
    Growing { kind: u8 },
}

pub struct Cost;

/// Bytes handed in, and bytes of all that is to be handed out, if known.
fn size_in(w: &Work) -> usize {
    match w {
        Work::Encode(_, t) => t.len(),
        Work::Generate(GenCfg::Svg(c), row) => row.len() + c.xmlns.as_ref().map_or(0, |n| n.len()),
        Work::Generate(_, row) => row.len(),
    }
}

/// The bytes of the picture, if it has a width at all.
fn pixels(w: &Work) -> usize {
    match w {
        Work::Generate(GenCfg::Image(c), row) => match u32::try_from(row.len()).ok().and_then(|n| n.checked_mul(c.xdim)) {
            Some(w) => 4 * w as usize * c.height as usize,
            None => 0,
        },
        _ => 0,
    }
}

/// Does it; the bytes that came out.
fn run(w: &Work) -> usize {
    match w {
        Work::Encode(s, t) => match real::new_raw(*s, &t[..]) {
            Ok(v) => {
                let n = v.encode_raw().len();
                n.max(v.encode_raw().len())
            }
            Err(_) => 0,
        },
        Work::Generate(g, row) => match g {
            GenCfg::Ascii(height, xdim) => ASCII { height: *height, xdim: *xdim }.generate(row).map_or(0, |s| s.len()),
            GenCfg::Json(height, xdim) => JSON { height: *height, xdim: *xdim }.generate(row).map_or(0, |s| s.len()),
            GenCfg::Svg(c) => c.svg().generate(row).map_or(0, |s| s.len()),
            GenCfg::Image(c) if c.fmt == Fmt::Buf => {
                // through both ways: the one that refuses, and the one that does not
                let _ = c.image().generate(row);
                c.image().generate_buffer(row).map_or(0, |b| b.as_raw().len())
            }
            GenCfg::Image(c) => c.image().generate(row).map_or(0, |b| b.len()),
        },
    }
}

/// What a call may take for each byte that goes in or comes out, and whatever the size.
/// What it takes today is below an eighth of it (see the classes in the evidence).
const PEAK: (u64, u64) = (128, 64 << 10);
const TOTAL: (u64, u64) = (1024, 256 << 10);
/// The same for image files: the compressors have tables of their own.
const FILE: (u64, u64) = (64, 32 << 20);
/// Most bytes of text for each module of a row.
const PER_MODULE: usize = 512;

fn text_bound(w: &Work) -> Option<usize> {
    match w {
        Work::Generate(GenCfg::Json(..), row) => Some(16 * row.len() + 4096),
        Work::Generate(GenCfg::Svg(c), row) => Some(PER_MODULE * row.len() + 8 * c.xmlns.as_ref().map_or(0, |n| n.len()) + 4096),
        _ => None,
    }
}

struct Took {
    seconds: f64,
    peak: u64,
    total: u64,
    size: u64,
}

fn took(w: &Work) -> Result<Took, crate::engine::Fail> {
    let before = meter::restart();
    let t = meter::cpu();
    let out = real::guard("a call", || run(w))?;
    let seconds = meter::cpu() - t;
    let after = meter::now();
    Ok(Took {
        seconds,
        peak: (after.peak - before.live).max(0) as u64,
        total: after.total - before.total,
        size: (size_in(w) + out.max(pixels(w))) as u64,
    })
}

fn within(w: &Work, t: &Took) -> Verdict {
    let (peak, total) = match w {
        Work::Generate(GenCfg::Image(_), _) => (FILE, FILE),
        _ => (PEAK, TOTAL),
    };
    for (what, n, (each, any)) in [("holds at once", t.peak, peak), ("allocates in all", t.total, total)] {
        if n > each * t.size + any {
            fail!("{} bytes go in or come out, and the call {what} {n} bytes (more than {each} for each and {any})", t.size);
        }
    }
    Ok(())
}

fn short(w: &Work) -> String {
    format!("{w:?}").chars().take(200).collect()
}

fn again(w: &Work, st: &mut Stats) -> Verdict {
    // the first time may set up what stays for good
    let first = took(w)?;
    within(w, &first)?;
    let second = took(w)?;
    within(w, &second)?;
    let out = real::guard("a call", || run(w))?;
    if let Some(most) = text_bound(w) {
        if out > most {
            fail!("{} bytes of output for a row of {} modules", out, size_in(w));
        }
    }
    st.nontrivial = out > 0 || second.total > 0;
    st.class(match (w, out) {
        (Work::Encode(..), 0) => "text refused",
        (Work::Encode(..), _) => "text encoded",
        (Work::Generate(GenCfg::Image(_), _), 0) => "picture refused",
        (Work::Generate(GenCfg::Image(_), _), _) => "picture made",
        _ => "row written as text",
    });
    let share = |n: u64, (each, any): (u64, u64)| n as f64 / (each * second.size + any) as f64;
    let file = matches!(w, Work::Generate(GenCfg::Image(_), _));
    let s = share(second.peak, if file { FILE } else { PEAK }).max(share(second.total, if file { FILE } else { TOTAL }));
    st.class_if(s > 0.125, "over an eighth of the memory allowed");
    st.class_if(s > 0.5, "over half of the memory allowed");
    let reps = if second.seconds > 0.02 { 4 } else { 20 };
    let before = meter::now().live;
    for _ in 0..reps {
        real::guard("a call", || run(w))?;
    }
    let after = meter::now().live;
    if after > before {
        fail!("{} bytes are still held after {reps} more calls whose results are dropped", after - before);
    }
    Ok(())
}

struct Dice(u64);

impl Dice {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) as usize * n) >> 32
    }
    fn colour(&mut self) -> Rgba {
        (self.next() as u32).to_le_bytes()
    }
}

const STREAMS: u8 = 2 * sym::ALL.len() as u8 + 7;

/// One of a kind, small, at random.
fn small(kind: u8, d: &mut Dice) -> Work {
    let kind = kind as usize;
    if kind < 2 * sym::ALL.len() {
        let s = sym::ALL[kind / 2];
        let mut alpha: Vec<char> = match s {
            Sym::Code128 => (' '..='~').collect(),
            _ => s.alphabet().chars().collect(),
        };
        let mut t = String::from(if s == Sym::Code128 { "\u{181}" } else { "" });
        let n = match s {
            Sym::Ean13 | Sym::Bookland | Sym::Jan => 12,
            Sym::Ean8 => 7,
            Sym::Upca => 11,
            Sym::Supp => 5,
            _ => 1 + d.below(20),
        };
        if kind % 2 == 1 {
            // and texts that are refused
            alpha.extend(['\u{E9}', '\u{4E2D}', '~', '\u{1F600}', 'q']);
        }
        t.extend((0..n).map(|_| alpha[d.below(alpha.len())]));
        return Work::Encode(s, t);
    }
    // short ones: the more there is of a call's own, the less is seen of what it leaves
    let n = d.below(12);
    let row: Vec<u8> = (0..n).map(|_| d.below(2) as u8).collect();
    let (x, h) = (d.below(4), d.below(4));
    Work::Generate(
        match kind - 2 * sym::ALL.len() {
            0 => GenCfg::Ascii(h, x),
            1 => GenCfg::Json(d.next() as usize >> 16, d.next() as usize >> 40),
            2 => GenCfg::Svg(SvgCfg {
                height: d.next() as u32,
                xdim: (d.next() >> 50) as u32,
                fg: d.colour(),
                bg: d.colour(),
                xmlns: (d.below(2) == 1).then(|| format!("urn:{}", d.next())),
            }),
            k => GenCfg::Image(ImgCfg {
                fmt: FMTS[k - 3],
                height: h as u32,
                xdim: x as u32,
                rot: ROTS[d.below(4)],
                fg: d.colour(),
                bg: d.colour(),
            }),
        },
        row,
    )
}

fn stream(kind: u8, seed: u64, st: &mut Stats) -> Verdict {
    let n = if (kind as usize) < 2 * sym::ALL.len() + 3 { 4000 } else { 1000 };
    let mut d = Dice(seed | 1);
    let mut largest = 0;
    let mut held = [0; 2];
    for half in &mut held {
        for _ in 0..n / 2 {
            let w = small(kind, &mut d);
            let t = took(&w)?;
            within(&w, &t)?;
            largest = largest.max(t.size);
        }
        *half = meter::now().live;
    }
    st.nontrivial = true;
    st.class("stream of different calls");
    // what is kept of a call, say the last, does not grow with their number
    let grown = held[1] - held[0];
    if grown > 2 * largest as i64 + 4096 {
        fail!("{grown} more bytes are held after {n} different calls than after {} (results dropped)", n / 2);
    }
    Ok(())
}

const GROWING: u8 = 44;

/// One of a kind, of about this size.
fn sized(kind: u8, n: usize) -> Work {
    let bits = |n: usize| -> Vec<u8> { (0..n).map(|i| (i % 3 == 0 || i % 7 == 1) as u8).collect() };
    let text = |first: &str, of: &str| -> String { first.chars().chain(of.chars().cycle().take(n)).collect() };
    let svg = |x: u32, ns: Option<String>| GenCfg::Svg(SvgCfg { height: 10, xdim: x, fg: [1, 2, 3, 100], bg: [255; 4], xmlns: ns });
    let img = |fmt, xdim: usize, height: usize, rot| {
        let (xdim, height) = (xdim.max(1) as u32, height.max(1) as u32);
        GenCfg::Image(ImgCfg { fmt, height, xdim, rot, fg: [9, 8, 7, 255], bg: [250; 4] })
    };
    let side = (n as f64).sqrt() as usize;
    match kind {
        0 => Work::Encode(Sym::Code128, text("\u{181}", "aZ~ 0x")),
        1 => Work::Encode(Sym::Code128, text("\u{106}", "1234567890")),
        2 => Work::Encode(Sym::Code128, text("\u{C0}", "A\u{181}a\u{106}12\u{C0}")),
        3 => Work::Encode(Sym::Code128, text("\u{106}", "\u{179}")),
        // refused at the very end, and for its odd digit
        4 => Work::Encode(Sym::Code128, text("\u{181}", "aZ~ 0x") + "\u{E9}"),
        5 => Work::Encode(Sym::Code128, text("\u{106}", "1\u{179}")),
        6 => Work::Encode(Sym::Code128, text("\u{C0}", "\u{181}\u{C0}")),
        7 => Work::Generate(GenCfg::Json(1, 2), bits(n)),
        8 => Work::Generate(GenCfg::Json(1, 2), vec![1; n]),
        9 => Work::Generate(GenCfg::Ascii(1, 1), bits(n)),
        10 => Work::Generate(GenCfg::Ascii(n, 1), bits(3)),
        11 => Work::Generate(GenCfg::Ascii(1, n), bits(3)),
        12 => Work::Generate(GenCfg::Ascii(n, 1), vec![]),
        13 => Work::Generate(GenCfg::Ascii(side, 2), bits(side)),
        14 => Work::Generate(svg(2, None), bits(n)),
        15 => Work::Generate(svg(1, None), vec![1; n]),
        16 => Work::Generate(svg(1, None), vec![0; n]),
        17 => Work::Generate(svg(3, Some(text("", "&<\"x"))), bits(20)),
        18..=21 => Work::Generate(img(Fmt::Buf, 1, 1, ROTS[kind as usize - 18]), bits(n)),
        22 => Work::Generate(img(Fmt::Buf, 1, n, Rot::R90), bits(3)),
        23 => Work::Generate(img(Fmt::Buf, n, 1, Rot::R0), bits(3)),
        24 => Work::Generate(img(Fmt::Buf, 1, side, Rot::R270), bits(side)),
        25..=27 => Work::Generate(img(FMTS[kind as usize - 25], 1, side.min(16_384), Rot::R0), bits(side.min(16_384))),
        28..=30 => Work::Generate(img(FMTS[kind as usize - 28], side.min(16_384) / 3, 3, Rot::R90), bits(3)),
        _ => {
            // texts much too long, of valid characters and with one that is not at the end
            let s = sym::ALL[(kind as usize - 31) % sym::ALL.len()];
            let t: String = match s {
                Sym::Code128 => text("", "\u{181}"),
                _ => text("", s.alphabet()),
            };
            Work::Encode(s, t)
        }
    }
}

/// Processor seconds below which no judgement is made.
const SLOW: f64 = 0.3;
/// Eight times the data may take this many times the time. Proportion makes it 8, a loop
/// within a loop 64.
const RATIO: f64 = 28.0;

fn growing(kind: u8, st: &mut Stats) -> Verdict {
    let mut times: Vec<(usize, f64)> = vec![];
    for k in 11..=21 {
        let n = 1usize << k;
        let w = sized(kind, n);
        let t = took(&w)?;
        within(&w, &t).map_err(|f| crate::engine::Fail(format!("{} at size {n}", f.0)))?;
        let before = meter::now().live;
        took(&w)?;
        took(&w)?;
        let held = meter::now().live - before;
        if held > 0 {
            fail!("{held} bytes are still held after two more calls of size {n} whose results are dropped: {}", short(&sized(kind, 12)));
        }
        times.push((n, t.seconds));
        let Some(&(m, _)) = times.iter().rev().nth(3) else { continue };
        if t.seconds < SLOW {
            continue;
        }
        // once more, each at its best
        let best = |n: usize, times: usize| -> Result<f64, crate::engine::Fail> {
            let w = sized(kind, n);
            (0..times).try_fold(f64::MAX, |b, _| Ok(b.min(took(&w)?.seconds)))
        };
        let (large, little) = (best(n, 2)?.min(t.seconds), best(m, 5)?);
        if large > RATIO * little {
            fail!("size {m} takes {little:.4} s of the processor, size {n} takes {large:.4} s: {}", short(&sized(kind, 12)));
        }
        break;
    }
    st.nontrivial = true;
    st.class("one call of growing size");
    Ok(())
}

impl Prop for Cost {
    type Case = Costs;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "one call (any text for any symbology, made and encoded; any row through any generator and settings) repeated, streams of 1000-4000 different calls of one kind, and calls of one kind that double in size up to 2^21; the bytes held at once, allocated in all, still held afterwards, and the processor time are read from the thread's own meters. Non-trivial: something came out or was allocated."
    }
    fn cases(&self) -> (u64, u64) {
        (16_000, 400_000)
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "memory is what the calling thread asks of Rust's global allocator".into(),
            "processor time is judged only above 0.3 s and by a factor of 28 for eight times the data".into(),
        ]
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Costs> {
        let whatever = gen::any_sym();
        let texts: Vec<BoxedStrategy<String>> = sym::ALL.iter().map(|&s| gen::any_text(cx, s)).collect();
        let whatever = whatever.prop_flat_map(move |s| {
            let i = sym::ALL.iter().position(|t| *t == s).unwrap();
            texts[i].clone().prop_map(move |t| Work::Encode(s, t))
        });
        let good = gen::sym_text(cx, false).prop_map(|(s, t)| Work::Encode(s, t));
        let ascii = prop_oneof![
            (gen::row(cx, 300), gen::size(cx, 12), gen::size(cx, 12)),
            gen::spread(60_000, 20_000),
        ];
        let ascii = ascii.prop_map(|(r, x, h)| Work::Generate(GenCfg::Ascii(h, x), r));
        let num = prop_oneof![gen::any_u32(cx).prop_map(|n| n as usize), any::<usize>()];
        let json = (gen::row(cx, 3000), num.clone(), num).prop_map(|(r, h, x)| Work::Generate(GenCfg::Json(h, x), r));
        let ns = prop_oneof![2 => Just(None), 1 => gen::namespace(cx).prop_map(Some)];
        let svg = (gen::row(cx, 1000), gen::any_u32(cx), gen::any_u32(cx), gen::colours(), ns)
            .prop_map(|(r, height, xdim, (fg, bg), xmlns)| Work::Generate(GenCfg::Svg(SvgCfg { height, xdim, fg, bg, xmlns }), r));
        let shape = prop_oneof![
            6 => (gen::row(cx, 60), gen::size(cx, 8), gen::size(cx, 12)),
            2 => gen::spread(8000, 3000),
            // too wide: refused, and at no cost
            1 => (gen::row(cx, 30), Just(u32::MAX as usize), Just(0usize)),
            1 => (proptest::collection::vec(0u8..=1, 3..20), Just(u32::MAX as usize), gen::any_u32(cx).prop_map(|h| h as usize)),
            1 => (Just(vec![]), gen::any_u32(cx).prop_map(|x| x as usize), gen::any_u32(cx).prop_map(|h| h.min(1 << 16) as usize)),
        ];
        let image = (shape, gen::rot(), gen::colours(), select(&FMTS[..])).prop_map(|((r, x, h), rot, (fg, bg), fmt)| {
            // too wide needs two modules; and a single line of what is not may be made
            // beforehand, so it is short even if there are to be no lines
            let (x, height) = if x == u32::MAX as usize && r.len() < 2 { (1 << 16, 0) } else { (x, h as u32) };
            Work::Generate(GenCfg::Image(ImgCfg { fmt, height, xdim: x as u32, rot, fg, bg }), r)
        });
        let work = prop_oneof![3 => whatever, 4 => good, 2 => ascii, 2 => json, 2 => svg, 2 => image];
        boxed(prop_oneof![
            40 => work.prop_map(Costs::Again),
            1 => (0..STREAMS, any::<u64>()).prop_map(|(kind, seed)| Costs::Stream { kind, seed }),
        ])
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Costs> {
        let mut v: Vec<Costs> = (0..GROWING).map(|kind| Costs::Growing { kind }).collect();
        v.extend((0..STREAMS).map(|kind| Costs::Stream { kind, seed: 1 + u64::from(kind) }));
        for s in sym::ALL {
            for t in ["", "1", "12", "12345", "1234567", "12345670", "12345678", "A", "A1B", "*", "\u{181}", "\u{181}A", "\u{106}1", "\u{C0}a"] {
                v.push(Costs::Again(Work::Encode(s, t.into())));
            }
        }
        v
    }
    fn smaller(&self, c: &Costs) -> Vec<Costs> {
        match c {
            Costs::Again(Work::Encode(s, t)) => {
                gen::smaller_text(t, '1').into_iter().map(|t| Costs::Again(Work::Encode(*s, t))).collect()
            }
            Costs::Again(Work::Generate(g, row)) => {
                super::text::smaller_row(row).into_iter().map(|r| Costs::Again(Work::Generate(g.clone(), r))).collect()
            }
            _ => vec![],
        }
    }
    fn check(&self, _cx: &Cx, c: &Costs, st: &mut Stats) -> Verdict {
        match c {
            Costs::Again(w) => again(w, st),
            Costs::Stream { kind, seed } => stream(*kind, *seed, st),
            Costs::Growing { kind } => growing(*kind, st),
        }
    }
}
