//! Generators. Every random choice is made by proptest's strategies.

use crate::engine::{boxed, Cx};
use crate::model::render::{Rgba, Rot, ROTS};
use crate::model::sym::{self, Sym};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{BoxedStrategy, Just, Union};
use std::sync::Arc;

type B<T> = BoxedStrategy<T>;

/// Lengths of interest: weight wraps (9, 10, 15, 20), the Code 11 boundary, the
/// extremes, byte-size sums.
const LENS: [usize; 44] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 29, 30, 31, 39, 40, 41,
    44, 45, 46, 59, 60, 61, 63, 64, 65, 127, 128, 255, 256,
];

pub fn len_1_256(cx: &Cx) -> B<usize> {
    let nums: Vec<usize> = cx.dict.numbers.iter().filter(|n| (1..=256).contains(*n)).map(|n| *n as usize).collect();
    let mut v: Vec<(u32, B<usize>)> = vec![
        (5, boxed(select(&LENS[..]))),
        (4, boxed(1usize..=24)),
        (2, boxed(1usize..=64)),
        (2, boxed(1usize..=256)),
        (1, boxed(248usize..=256)),
    ];
    if !nums.is_empty() {
        v.push((1, boxed(select(nums))));
    }
    boxed(Union::new_weighted(v))
}

/// Exactly `n` characters of the alphabet, in one of several styles.
pub fn fill(alpha: &Arc<Vec<char>>, words: &Arc<Vec<Vec<char>>>, n: usize) -> B<Vec<char>> {
    let a = alpha.clone();
    let k = a.len();
    if n == 0 {
        return boxed(Just(vec![]));
    }
    let pick = move |a: &Arc<Vec<char>>, v: Vec<usize>| -> Vec<char> { v.into_iter().map(|i| a[i]).collect() };
    let a1 = a.clone();
    let uniform = vec(0..k, n).prop_map(move |v| pick(&a1, v));
    let a2 = a.clone();
    let few = vec(0..k, 1..=3).prop_flat_map(move |sub| {
        let a2 = a2.clone();
        vec(0..sub.len(), n).prop_map(move |v| v.into_iter().map(|i| a2[sub[i]]).collect::<Vec<_>>())
    });
    let a3 = a.clone();
    let same = (0..k).prop_map(move |i| vec![a3[i]; n]);
    let a4 = a.clone();
    let high = vec(k - k.div_ceil(4)..k, n).prop_map(move |v| pick(&a4, v));
    let a5 = a.clone();
    let ends = vec(prop_oneof![Just(0usize), Just(k - 1)], n).prop_map(move |v| pick(&a5, v));
    let a6 = a.clone();
    let seq = (0..k, 1..k.max(2)).prop_map(move |(s, d)| (0..n).map(|i| a6[(s + i * d) % k]).collect::<Vec<_>>());
    // one different character in a constant string
    let a7 = a.clone();
    let odd = (0..k, 0..k, 0..n).prop_map(move |(x, y, at)| {
        let mut v = vec![a7[x]; n];
        v[at] = a7[y];
        v
    });
    // orders within the text: a block over and over, mirrored, sorted, run by run, and
    // one long run among others
    let a9 = a.clone();
    let ordered = (vec(0..k, n), 0u8..8, 1..=n.min(12), any::<bool>(), 0..n).prop_map(move |(mut v, style, p, down, at)| {
        match style {
            0 => (p..n).for_each(|i| v[i] = v[i - p]),
            1 => (0..n / 2).for_each(|i| v[n - 1 - i] = v[i]),
            2 => v.sort_unstable(),
            3 => {
                // each run as long as the last character drawn says
                let mut i = 0;
                while i < n {
                    let end = (i + 1 + v[i] % (p + 1)).min(n);
                    let c = v[i];
                    v[i..end].fill(c);
                    i = end;
                }
            }
            4 => {
                let c = v[at];
                v[at..(at + 2 * p).min(n)].fill(c);
            }
            // every second character, or every p-th, the same or from one end of the alphabet
            5 => (at % 2..n).step_by(2).for_each(|i| v[i] = v[at % 2]),
            6 => (at % p.max(2)..n).step_by(p.max(2)).for_each(|i| v[i] = if down { k - 1 - v[i] % k.div_ceil(4) } else { v[i] % k.div_ceil(4) }),
            // two halves alike, or one the reverse of the other
            _ => {
                let h = n / 2;
                (0..h).for_each(|i| v[n - h + i] = v[if down { h - 1 - i } else { i }]);
            }
        }
        if down && style < 4 {
            v.reverse();
        }
        v.into_iter().map(|i| a9[i]).collect::<Vec<_>>()
    });
    // filler before or after
    let a10 = a.clone();
    let padded = (vec(0..k, n), 0..k, 0..=n, any::<bool>(), any::<bool>()).prop_map(move |(mut v, c, m, zero, left)| {
        let c = if zero { 0 } else { c };
        if left {
            v[..m].fill(c);
        } else {
            v[n - m..].fill(c);
        }
        v.into_iter().map(|i| a10[i]).collect::<Vec<_>>()
    });
    let mut u: Vec<(u32, B<Vec<char>>)> = vec![
        (3, boxed(ordered)),
        (2, boxed(padded)),
        (8, boxed(uniform)),
        (3, boxed(few)),
        (2, boxed(same)),
        (2, boxed(high)),
        (2, boxed(ends)),
        (1, boxed(seq)),
        (1, boxed(odd)),
    ];
    if !words.is_empty() {
        let (w, a8) = (words.clone(), a.clone());
        let m = w.len();
        u.push((
            2,
            boxed((vec(0..m, 1..=4), vec(0..k, n), 0..=n).prop_map(move |(ws, rest, cut)| {
                let mut v: Vec<char> = rest[..cut].iter().map(|i| a8[*i]).collect();
                for i in ws {
                    v.extend(&w[i]);
                }
                v.truncate(n);
                for r in &rest {
                    if v.len() < n {
                        v.push(a8[*r]);
                    }
                }
                v
            })),
        ));
    }
    boxed(Union::new_weighted(u))
}

fn words_over(cx: &Cx, alpha: &[char]) -> Arc<Vec<Vec<char>>> {
    let mut v: Vec<Vec<char>> = cx
        .dict
        .strings
        .iter()
        .filter(|s| s.chars().all(|c| alpha.contains(&c)))
        .map(|s| s.chars().collect())
        .collect();
    if alpha.iter().all(|c| c.is_ascii_digit()) {
        v.extend(cx.dict.numbers.iter().filter(|n| **n > 1).map(|n| n.to_string().chars().collect()));
        for p in ["978", "979", "977", "49", "45", "00", "99"] {
            v.push(p.chars().collect());
        }
    }
    Arc::new(v)
}

fn to_s(v: Vec<char>) -> String {
    v.into_iter().collect()
}

/// Text the symbology accepts.
pub fn text(cx: &Cx, s: Sym) -> B<String> {
    if s == Sym::Code128 {
        return boxed(c128_text(cx, 60));
    }
    let alpha: Arc<Vec<char>> = Arc::new(s.alphabet().chars().collect());
    let words = words_over(cx, &alpha);
    if let Some(n) = s.retail_len() {
        return boxed((fill(&alpha, &words, n), any::<bool>()).prop_map(move |(v, check)| {
            let t = to_s(v);
            if check {
                with_check(&t)
            } else {
                t
            }
        }));
    }
    if s == Sym::Supp {
        let (a, w) = (alpha.clone(), words.clone());
        return boxed(prop_oneof![Just(2usize), Just(5)].prop_flat_map(move |n| fill(&a, &w, n)).prop_map(to_s));
    }
    boxed(len_1_256(cx).prop_flat_map(move |n| fill(&alpha, &words, n)).prop_map(to_s))
}

/// Short accepted text, for properties that spend their time elsewhere.
pub fn short_text(cx: &Cx, s: Sym) -> B<String> {
    if s == Sym::Code128 {
        return boxed(c128_text(cx, 8));
    }
    if s.retail_len().is_some() || s == Sym::Supp {
        return text(cx, s);
    }
    let alpha: Arc<Vec<char>> = Arc::new(s.alphabet().chars().collect());
    let words = words_over(cx, &alpha);
    boxed((1usize..=14).prop_flat_map(move |n| fill(&alpha, &words, n)).prop_map(to_s))
}

pub fn with_check(t: &str) -> String {
    let d = sym::digits(t).unwrap();
    format!("{t}{}", sym::mod10(&d))
}

// ---------------------------------------------------------------- Code 128

/// One step of a Code 128 string, made valid for whatever set is active.
#[derive(Clone, Copy, Debug)]
pub struct Op(pub u8, pub u8);

pub fn c128_render(start: u8, ops: &[Op]) -> String {
    use sym::*;
    let marks = [MARK_A, MARK_B, MARK_C];
    let mut set = start % 3;
    let mut s = String::new();
    s.push(marks[set as usize]);
    for Op(k, v) in ops {
        match k {
            0 => {
                set = (set + 1 + v % 2) % 3;
                s.push(marks[set as usize]);
            }
            1 => s.push(match (set, v % 5) {
                (2, _) | (_, 0) => FNC1,
                (_, 1) => FNC2,
                (_, 2) => FNC3,
                (_, 3) => FNC4,
                _ => SHIFT,
            }),
            _ => match set {
                0 => s.push((v % 96) as char),
                1 => s.push((v % 96 + 32) as char),
                _ => s.push_str(&format!("{:02}", v % 100)),
            },
        }
    }
    if s.chars().count() < 2 {
        s.push_str("00");
    }
    s
}

fn c128_ops(kinds: B<u8>, vals: B<u8>, n: std::ops::RangeInclusive<usize>) -> B<Vec<Op>> {
    boxed(vec((kinds, vals).prop_map(|(k, v)| Op(k, v)), n))
}

pub fn c128_text(cx: &Cx, max: usize) -> impl Strategy<Value = String> {
    let plain = boxed(Just(2u8));
    let mixed = boxed(prop_oneof![1 => Just(0u8), 1 => Just(1u8), 8 => Just(2u8)]);
    let wild = boxed(prop_oneof![Just(0u8), Just(1u8), Just(2u8)]);
    let anyv = boxed(any::<u8>());
    let high = boxed(prop_oneof![90u8..=99, Just(95u8)]);
    let few = boxed(vec(any::<u8>(), 1..=3).prop_flat_map(|v| vec(select(v), 0..=max_few())));
    let words: Vec<String> = cx
        .dict
        .strings
        .iter()
        .filter(|s| sym::accept(Sym::Code128, s).is_ok() || sym::accept(Sym::Code128, &format!("\u{181}{s}")).is_ok())
        .map(|s| if sym::accept(Sym::Code128, s).is_ok() { s.clone() } else { format!("\u{181}{s}") })
        .collect();
    let words = if words.is_empty() { vec!["\u{C0}HELLO".to_string()] } else { words };
    let ops = prop_oneof![
        4 => c128_ops(mixed.clone(), anyv.clone(), 1..=max),
        2 => c128_ops(plain.clone(), anyv.clone(), 1..=max),
        2 => c128_ops(wild, anyv.clone(), 1..=max.min(12)),
        1 => c128_ops(mixed, high.clone(), 1..=max),
        1 => c128_ops(plain, high, 1..=max),
        1 => few.prop_map(|v| v.into_iter().map(|x| Op(2, x)).collect()),
        2 => c128_ops(boxed(1u8..=2), anyv, 1..=3),
    ];
    prop_oneof![
        8 => (0u8..3, ops.clone()).prop_map(|(s, o)| c128_render(s, &o)),
        1 => (select(words), 0u8..3, ops).prop_map(|(w, s, o)| {
            // a known string, then a switch to another set and more
            let last = w.chars().rev().find_map(sym::marker).unwrap_or(sym::Set::B) as u8;
            let s = if s == last { (s + 1) % 3 } else { s };
            w + &c128_render(s, &o)
        }),
    ]
}

fn max_few() -> usize {
    40
}

/// Long Code 128 data.
pub fn c128_long(max: usize) -> impl Strategy<Value = String> {
    let val = prop_oneof![Just(boxed(any::<u8>())), Just(boxed(Just(95u8))), Just(boxed(90u8..=99))];
    (0u8..3, val, 200usize..=max, 0u8..=30).prop_flat_map(|(s, v, n, rate)| {
        let kinds = boxed((0u8..=200).prop_map(move |r| {
            if r < rate / 2 {
                0
            } else if r < rate {
                1
            } else {
                2
            }
        }));
        c128_ops(kinds, v, n..=n).prop_map(move |o| c128_render(s, &o))
    })
}

// ---------------------------------------------------------------- bad text

/// Characters that tempt an encoder: look-alikes, neighbours of its alphabet,
/// characters whose lowest byte is a digit or letter.
pub const TEMPTING: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdwxyz-. $/+%()[]*:,;_=!\"#&'<>?@\\^`{|}~\
\u{0}\u{1}\t\n\r\u{1B}\u{1F}\u{7F}\u{80}\u{A0}\u{B2}\u{BD}\u{F7}\u{130}\u{131}\u{141}\u{C0}\u{181}\u{106}\u{C1}\u{107}\
\u{179}\u{17A}\u{17B}\u{17C}\u{17D}\u{17E}\u{178}\u{301}\u{41F}\u{430}\u{660}\u{663}\u{669}\u{6F5}\u{966}\u{2070}\u{2460}\
\u{2212}\u{2013}\u{FF0D}\u{FF10}\u{FF15}\u{FF19}\u{FF21}\u{1D7CE}\u{1D7D8}\u{1F600}\u{10FFFF}\u{FEFF}\u{200B}\u{17F}\u{212A}\u{DF}";

pub fn tempting(cx: &Cx) -> B<char> {
    let mut v: Vec<char> = TEMPTING.chars().collect();
    let mut d: Vec<char> = cx.dict.strings.iter().flat_map(|s| s.chars()).filter(|c| !c.is_ascii()).collect();
    d.sort();
    d.dedup();
    v.extend(d);
    boxed(prop_oneof![
        12 => select(v),
        2 => (0u32..0x250).prop_map(|u| char::from_u32(u).unwrap()),
        1 => any::<char>(),
    ])
}

#[derive(Clone, Debug)]
pub enum Edit {
    Insert(prop::sample::Index, char),
    Replace(prop::sample::Index, char),
    Delete(prop::sample::Index),
    Swap(prop::sample::Index),
    Dup(prop::sample::Index),
    Cut(prop::sample::Index),
    Prepend(char),
    Append(char),
    /// a sequence of characters in between or in place of as many
    Word(prop::sample::Index, bool, String),
}

/// Sequences that mean something together: line ends, combined characters, escapes,
/// identifiers of symbologies and fields, ways to write numbers.
const SEQUENCES: [&str; 34] = [
    "\r\n", "\n\r", "\u{FE0F}\u{20E3}", "\u{20E3}", "\u{200D}", "e\u{301}", "A\u{300}", "C\u{301}", "B\u{301}", "\u{301}", "]C1", "]E0", "]A0",
    "]I1", "]F0", "]G0", "(01)", "%20", "%31", "+A", "$M", "/A", "&#49;", "&amp;", "\\u0031", "\\x31", "\\0", "1e3", "0x1", "-1", "1.0", "1_000", "\u{1F1E6}\u{1F1E7}",
    "\u{202E}",
];

pub fn edit(cx: &Cx) -> B<Edit> {
    let i = any::<prop::sample::Index>;
    let c = tempting(cx);
    let mut words: Vec<String> = SEQUENCES.iter().map(|s| s.to_string()).collect();
    words.extend(cx.dict.strings.iter().filter(|s| s.chars().nth(1).is_some() && s.chars().count() <= 12).cloned());
    boxed(prop_oneof![
        2 => (i(), any::<bool>(), select(words)).prop_map(|(i, over, w)| Edit::Word(i, over, w)),
        4 => (i(), c.clone()).prop_map(|(i, c)| Edit::Replace(i, c)),
        3 => (i(), c.clone()).prop_map(|(i, c)| Edit::Insert(i, c)),
        2 => i().prop_map(Edit::Delete),
        1 => i().prop_map(Edit::Swap),
        1 => i().prop_map(Edit::Dup),
        1 => i().prop_map(Edit::Cut),
        1 => c.clone().prop_map(Edit::Prepend),
        1 => c.prop_map(Edit::Append),
    ])
}

pub fn apply(s: &str, e: &[Edit]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for e in e {
        let n = v.len();
        match e {
            Edit::Insert(i, c) => v.insert(i.index(n + 1), *c),
            Edit::Prepend(c) => v.insert(0, *c),
            Edit::Append(c) => v.push(*c),
            Edit::Word(i, over, w) => {
                let at = i.index(n + 1);
                let end = if *over { (at + w.chars().count()).min(n) } else { at };
                v.splice(at..end, w.chars());
            }
            _ if n == 0 => {}
            Edit::Replace(i, c) => v[i.index(n)] = *c,
            Edit::Delete(i) => {
                v.remove(i.index(n));
            }
            Edit::Swap(i) => {
                if n > 1 {
                    let k = i.index(n - 1);
                    v.swap(k, k + 1)
                }
            }
            Edit::Dup(i) => {
                let k = i.index(n);
                v.insert(k, v[k])
            }
            Edit::Cut(i) => v.truncate(i.index(n)),
        }
    }
    v.into_iter().collect()
}

/// Any text: valid, nearly valid, of near-boundary length, or arbitrary.
pub fn any_text(cx: &Cx, s: Sym) -> B<String> {
    let alpha: Arc<Vec<char>> = Arc::new(if s == Sym::Code128 {
        "\u{C0}\u{181}\u{106}\u{179}0123456789Aa".chars().collect()
    } else {
        s.alphabet().chars().collect()
    });
    let words = words_over(cx, &alpha);
    let lens = prop_oneof![
        4 => 0usize..=16,
        3 => select(vec![0usize, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255, 256, 257, 258]),
        1 => 0usize..=600,
        1 => select(vec![512usize, 513, 514, 1024, 65535, 65536, 65537]),
    ];
    // multi-byte characters mixed in so that bytes and characters disagree
    let t = tempting(cx);
    let a = alpha.clone();
    let by_bytes = (select(vec![1usize, 2, 5, 7, 8, 11, 12, 13, 256]), vec((any::<bool>(), t.clone(), 0..a.len()), 0..20))
        .prop_map(move |(n, v)| {
            let mut s = String::new();
            for (bad, c, i) in v {
                let c = if bad { c } else { a[i] };
                if s.len() + c.len_utf8() <= n {
                    s.push(c);
                }
            }
            while s.len() < n {
                s.push(a[s.len() % a.len()]);
            }
            s
        });
    boxed(prop_oneof![
        3 => lens.prop_flat_map(move |n| fill(&alpha, &words, n)).prop_map(to_s),
        6 => (text(cx, s), vec(edit(cx), 0..=2)).prop_map(|(t, e)| apply(&t, &e)),
        2 => (short_text(cx, s), vec(edit(cx), 1..=3)).prop_map(|(t, e)| apply(&t, &e)),
        2 => by_bytes,
        1 => vec(t, 0..=16).prop_map(to_s),
        1 => any::<String>(),
    ])
}

/// Any symbology.
pub fn any_sym() -> B<Sym> {
    boxed(select(&sym::ALL[..]))
}

pub fn sym_text(cx: &Cx, short: bool) -> B<(Sym, String)> {
    let cx = cx.clone();
    let per: Vec<(Sym, B<String>)> =
        sym::ALL.iter().map(|&s| (s, if short { short_text(&cx, s) } else { text(&cx, s) })).collect();
    boxed(select((0..per.len()).collect::<Vec<_>>()).prop_flat_map(move |i| {
        let s = per[i].0;
        per[i].1.clone().prop_map(move |t| (s, t))
    }))
}

// ---------------------------------------------------------------- rows and settings

/// Rows of modules: arbitrary bits, runs, encodings, degenerate ones.
pub fn row(cx: &Cx, max: usize) -> B<Vec<u8>> {
    let bit = boxed(0u8..=1);
    let runs = (0u8..=1, vec(prop_oneof![30 => 1usize..=9, 1 => 1usize..=140], 0..=max / 5 + 1)).prop_map(move |(first, w)| {
        let mut v = vec![];
        for (i, n) in w.into_iter().enumerate() {
            v.extend(std::iter::repeat_n(((first as usize + i) % 2) as u8, n));
        }
        v.truncate(max);
        v
    });
    // a block over and over, perhaps mirrored
    let repeated = (vec(0u8..=1, 1..=17), 0..=max, any::<bool>()).prop_map(|(b, n, mirror)| {
        let mut v: Vec<u8> = (0..n).map(|i| b[i % b.len()]).collect();
        if mirror {
            (0..n / 2).for_each(|i| v[n - 1 - i] = v[i]);
        }
        v
    });
    let enc = sym_text(cx, max < 400).prop_map(move |(s, t)| {
        let mut r = sym::encode(s, &t);
        r.truncate(max);
        r
    });
    let nums: Vec<usize> = cx.dict.numbers.iter().filter(|n| **n as usize <= max).map(|n| *n as usize).collect();
    let nums = if nums.is_empty() { vec![1] } else { nums };
    boxed(prop_oneof![
        4 => vec(bit.clone(), 0..=max.min(40)),
        2 => vec(bit.clone(), 0..=max),
        3 => runs,
        1 => repeated,
        3 => enc,
        1 => (select(nums), 0usize..=2).prop_flat_map(move |(n, d)| vec(0u8..=1, (n + d).saturating_sub(1).min(max))),
        1 => (0..=max.min(70), bit).prop_map(|(n, b)| vec![b; n]),
        1 => Just(vec![]),
    ])
}

/// A long row without period, the same every time.
pub fn long_row(n: usize) -> Vec<u8> {
    let mut x = 0x2545_F491u32;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 9 & 1) as u8
        })
        .collect()
}
/// Every length from 0 to `max`, each with the x-dimensions up to `xmax`: (row, x-dimension,
/// a height of 0 to `hmax` that differs from one to the next).
pub fn sweep(max: usize, xmax: usize, hmax: usize) -> Vec<(Vec<u8>, usize, usize)> {
    let source = long_row(max * 8 + max + 1);
    let mut v = vec![];
    for n in 0..=max {
        for x in 0..=xmax {
            let row = match (n + x) % 5 {
                0 => vec![1; n],
                _ => source[n * 7 + x..][..n].to_vec(),
            };
            v.push((row, x, (n * 7 + x * 13 + n / 16) % (hmax + 1)));
        }
    }
    v
}

/// Height and x-dimension for a row of `n`, tied to it and to each other now and then, as
/// long as the picture's area stays within `area`.
pub fn tie(n: usize, h: usize, x: usize, how: u8, area: u64) -> (usize, usize) {
    let (a, b) = match how {
        0 => (x, x),
        1 => (h, h),
        2 => (n, x),
        3 => (h, n),
        4 => (n, n),
        // square, twice as high, half
        5 => (n.saturating_mul(x), x),
        6 => (n.saturating_mul(x).saturating_mul(2), x),
        7 => (n.saturating_mul(x) / 2, x),
        8 => (x.saturating_add(1), x),
        9 => (n.saturating_add(1), x),
        10 => (h, n.saturating_sub(1)),
        11 => (x.saturating_mul(n), n),
        _ => (h, x),
    };
    if area < u64::MAX && (n.max(1) as u128).saturating_mul(a.max(1) as u128).saturating_mul(b.max(1) as u128) > area as u128 {
        return (h, x);
    }
    (a, b)
}

/// `how` of `tie`: nothing, mostly.
pub fn ties() -> B<u8> {
    boxed(prop_oneof![7 => Just(99u8), 1 => 0u8..12])
}

/// Rows as long as they are wide a module and high.
pub fn cubes(max: usize) -> impl Iterator<Item = (Vec<u8>, usize)> {
    (1..=max).map(|n| (if n % 2 == 0 { long_row(n) } else { vec![1; n] }, n))
}

/// Row lengths around the powers of two that programs like.
pub const LONG: [usize; 22] = [
    127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 32_767, 32_769, 65_535, 65_536, 65_537, 100_003,
];

/// Beyond a million, two to the twentieth and to the twenty-fourth.
pub const MILLIONS: [usize; 4] = [1_000_003, 1_050_001, 2_100_001, 16_777_300];

/// A row with bars only at its beginning, at its end and at a few places between.
pub fn sparse_row(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    (0..64).for_each(|i| v[i * (n / 64)] = 1);
    (1..=40).filter(|i| i % 3 != 1).for_each(|i| v[n - i] = 1);
    v
}

pub fn channel() -> B<u8> {
    boxed(prop_oneof![
        3 => any::<u8>(),
        1 => select(vec![0u8, 1, 2, 9, 10, 15, 16, 17, 127, 128, 129, 159, 160, 240, 254, 255]),
    ])
}
pub fn alpha() -> B<u8> {
    boxed(prop_oneof![
        3 => Just(255u8),
        2 => any::<u8>(),
        3 => select(vec![0u8, 1, 2, 3, 4, 12, 13, 25, 26, 51, 63, 64, 126, 127, 128, 129, 191, 192, 229, 242, 251, 252, 253, 254]),
    ])
}
pub fn colour() -> B<Rgba> {
    boxed(prop_oneof![
        4 => (channel(), channel(), channel(), alpha()).prop_map(|(r, g, b, a)| [r, g, b, a]),
        1 => (channel(), alpha()).prop_map(|(v, a)| [v, v, v, a]),
        1 => select(vec![[0u8, 0, 0, 255], [255, 255, 255, 255], [0, 0, 0, 0], [255, 255, 255, 0], [255, 0, 0, 255], [0, 0, 255, 128]]),
    ])
}
/// Foreground and background, also equal or nearly equal.
pub fn colours() -> B<(Rgba, Rgba)> {
    boxed(prop_oneof![
        6 => (colour(), colour()),
        1 => colour().prop_map(|c| (c, c)),
        2 => (colour(), 0usize..4, any::<u8>()).prop_map(|(c, i, v)| {
            let mut d = c;
            d[i] = v;
            (c, d)
        }),
        // the other colour is the negative, or has the same channels in another order
        1 => (colour(), any::<bool>()).prop_map(|(c, a)| {
            (c, [255 - c[0], 255 - c[1], 255 - c[2], if a { c[3] } else { 255 - c[3] }])
        }),
        1 => (colour(), 0usize..3, 0usize..3).prop_map(|(c, i, k)| {
            let mut d = c;
            d[..3].rotate_left(i);
            d.swap(k, 3 - i);
            (c, d)
        }),
        1 => Just(([0, 0, 0, 255], [255, 255, 255, 255])),
        1 => Just(([255, 255, 255, 255], [0, 0, 0, 255])),
    ])
}

pub fn rot() -> B<Rot> {
    boxed(select(&ROTS[..]))
}

/// Small sizes 0..=max with the usual values preferred.
pub fn size(cx: &Cx, max: usize) -> B<usize> {
    let nums: Vec<usize> = cx.dict.numbers.iter().map(|n| *n as usize).filter(|n| *n > 0 && *n <= max).collect();
    let nums = if nums.is_empty() { vec![0, 1] } else { nums };
    boxed(prop_oneof![
        7 => 1.min(max)..=max.min(7),
        4 => 0..=max,
        1 => Just(0),
        1 => select(nums),
    ])
}

/// Multiples of powers of two and ten and their neighbours, up to `max`.
pub fn round(max: usize) -> B<usize> {
    boxed((1usize..=9, select(vec![2usize, 4, 8, 10, 16, 32, 50, 64, 100, 128, 256, 1000]), 0usize..=2).prop_map(move |(k, u, d)| {
        let u = if u > max { 2 } else { u };
        (k * u + 1 - d).min(max)
    }))
}

/// A row, an x-dimension and a height of any magnitude each, as long as their product is
/// at most `area`: long rows of wide modules, wide and high ones, and so on.
pub fn spread(area: usize, longest: usize) -> B<(Vec<u8>, usize, usize)> {
    // a number of up to `max`, its magnitude drawn first, perhaps round or next to it
    fn pick(max: usize, r: u64) -> usize {
        if max <= 1 {
            return 1;
        }
        let bits = max.ilog2() as u64 + 1;
        let low = 1usize << (r % bits);
        let n = low + (r >> 8) as usize % low;
        let n = match (r >> 40) % 8 {
            0 => low,
            1 => low - 1,
            2 => low + 1,
            3 => n / 10 * 10,
            _ => n,
        };
        n.clamp(1, max)
    }
    boxed((any::<[u64; 3]>(), 0u8..6, any::<u64>(), 0u8..4).prop_map(move |(r, order, seed, style)| {
        let (mut n, mut x, mut h) = (1, 1, 1);
        let mut left = area;
        for (k, r) in [[0u8, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order as usize].into_iter().zip(r) {
            let v = pick(if k == 0 { left.min(longest) } else { left }, r);
            left /= v;
            match k {
                0 => n = v,
                1 => x = v,
                _ => h = v,
            }
        }
        let mut z = seed | 1;
        let row = (0..n)
            .map(|i| {
                z ^= z << 13;
                z ^= z >> 7;
                z ^= z << 17;
                match style {
                    0 => (i % 2) as u8,
                    1 => u8::from(z % 5 == 0),
                    _ => (z >> 20) as u8 & 1,
                }
            })
            .collect();
        (row, x, h)
    }))
}

/// A row of up to `max` modules and an x-dimension for which some bar begins, or the
/// picture ends, exactly at a round coordinate.
pub fn aimed(max: usize) -> B<(Vec<u8>, u32)> {
    let target = (1u64..=9, 1u32..=9, any::<bool>(), 0u32..=33).prop_map(|(k, ten, two, bit)| if two { k << bit } else { k * 10u64.pow(ten) });
    boxed((target, 0u64..=2, any::<prop::sample::Index>(), 0usize..=3, 0u8..=1).prop_map(move |(t, d, i, more, odd)| {
        let t = (t + 1 - d).max(1);
        let divisors: Vec<u64> = (1..=max as u64).filter(|n| t % n == 0 && t / n <= u32::MAX as u64).collect();
        let n = if divisors.is_empty() { 1 } else { *i.get(&divisors) };
        let x = (t / n).min(u32::MAX as u64) as u32;
        let mut row: Vec<u8> = (0..n as usize).map(|i| (i % 2) as u8 ^ odd).collect();
        row.extend([1, 0, 1].iter().take(more));
        (row, x)
    }))
}

pub fn any_u32(cx: &Cx) -> B<u32> {
    let nums: Vec<u32> = cx.dict.numbers.iter().filter_map(|n| u32::try_from(*n).ok()).collect();
    let nums = if nums.is_empty() { vec![0, 1] } else { nums };
    boxed(prop_oneof![
        6 => 0u32..=12,
        3 => 0u32..=2000,
        2 => select(vec![
            0u32, 1, 2, 9, 10, 99, 100, 255, 256, 257, 999, 1000, 4095, 4096, 65535, 65536, 65537, 99_999, 100_000, 999_999, 1_000_000,
            0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF,
        ]),
        1 => (0u32..32, any::<bool>()).prop_map(|(b, m)| (1u32 << b) - u32::from(m)),
        2 => any::<u32>(),
        1 => select(nums),
    ])
}

/// Namespace strings of printable characters.
pub fn namespace(cx: &Cx) -> B<String> {
    let words: Vec<String> = cx.dict.strings.iter().filter(|s| s.chars().all(printable)).cloned().collect();
    let words = if words.is_empty() { vec!["x".to_string()] } else { words };
    let c = prop_oneof![
        3 => (32u32..127).prop_map(|u| char::from_u32(u).unwrap()),
        3 => select("&<>\"'=/:;#{}%\\ ".chars().collect::<Vec<_>>()),
        1 => select("\u{A0}\u{E9}\u{3B1}\u{4E2D}\u{1F600}\u{2028}\u{FFFD}".chars().collect::<Vec<_>>()),
    ];
    boxed(prop_oneof![
        3 => Just("http://www.w3.org/2000/svg".to_string()),
        5 => vec(c.clone(), 0..=24).prop_map(to_s),
        1 => vec(c.clone(), 25..=900).prop_map(to_s),
        1 => (1usize..=70, vec(c.clone(), 1..=8)).prop_map(|(n, v)| to_s(v).repeat(n)),
        2 => (select(vec!["&amp;", "&lt;", "&#60;", "&quot;", "]]>", "<!--", "\" onload=\"", "&", "{x}", "{}"]), vec(c, 0..6))
            .prop_map(|(a, v)| format!("{}{a}", to_s(v))),
        1 => select(words),
    ])
}

pub fn printable(c: char) -> bool {
    !c.is_control() && c != '\u{FFFE}' && c != '\u{FFFF}'
}

// ---------------------------------------------------------------- shrinking of text

/// Smaller variants of a text, most drastic first.
pub fn smaller_text(t: &str, plain: char) -> Vec<String> {
    let v: Vec<char> = t.chars().collect();
    let n = v.len();
    let mut out = vec![];
    // long cases have many smaller ones: not all at once
    let most = 20_000_000 / n.max(1);
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= n {
            if out.len() >= most {
                return out;
            }
            out.push(v[..i].iter().chain(&v[i + k..]).collect());
            i += k;
        }
        k /= 2;
    }
    for i in 0..n {
        if v[i] != plain && out.len() < most {
            let mut w = v.clone();
            w[i] = plain;
            out.push(w.into_iter().collect());
        }
    }
    out
}

/// Smaller numbers; none below 1.
pub fn smaller_number<T>(n: T) -> Vec<T>
where
    T: Copy + Ord + From<u8> + std::ops::Div<Output = T> + std::ops::Sub<Output = T>,
{
    let one = T::from(1);
    let mut v: Vec<T> = if n <= one { vec![] } else { vec![one, n / T::from(2), n - n / T::from(4), n - one] };
    v.dedup();
    v.retain(|x| *x < n && *x >= one);
    v
}
