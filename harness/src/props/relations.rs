//! C05, C28 (check digits), C15 (clean, injective rows).

use crate::engine::{boxed, Cx, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::row_str;
use crate::model::sym::{self, Sym, E_CHECK};
use crate::real;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const RETAIL: [Sym; 5] = [Sym::Ean13, Sym::Ean8, Sym::Upca, Sym::Bookland, Sym::Jan];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Number {
    pub sym: Sym,
    /// data digits, no check digit
    pub data: String,
}

fn number(cx: &Cx) -> BoxedStrategy<Number> {
    let per: Vec<(Sym, BoxedStrategy<String>)> = RETAIL.iter().map(|&s| (s, gen::text(cx, s))).collect();
    boxed(select(vec![0usize, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4]).prop_flat_map(move |i| {
        let s = per[i].0;
        let n = s.retail_len().unwrap();
        per[i].1.clone().prop_map(move |t| Number { sym: s, data: t[..n].to_string() })
    }))
}

fn smaller_number(c: &Number) -> Vec<Number> {
    let n = c.data.len();
    gen::smaller_text(&c.data, '0')
        .into_iter()
        .filter(|t| t.len() == n)
        .map(|data| Number { sym: c.sym, data })
        .collect()
}

fn all_lengths(sym: Sym) -> Vec<Number> {
    let n = sym.retail_len().unwrap();
    let mut v = vec![];
    // every digit in every position of an otherwise constant number
    for base in ['0', '1', '9'] {
        for i in 0..n {
            for d in '0'..='9' {
                let data = (0..n).map(|k| if k == i { d } else { base }).collect();
                v.push(Number { sym, data });
            }
        }
    }
    v
}

pub struct CheckDigit;

impl Prop for CheckDigit {
    type Case = Number;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "EAN-13 (three names), EAN-8 and UPC-A data digits (uniform, few digits, 0/9-heavy, prefixes, harvested literals; also every digit in every position of constant numbers); each is tried with all ten last digits. Non-trivial: data digits not all equal."
    }
    fn cases(&self) -> (u64, u64) {
        (3_000_000, 40_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Number> {
        number(cx)
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Number> {
        RETAIL.iter().flat_map(|s| all_lengths(*s)).collect()
    }
    fn enumerate(&self, cx: &Cx, shard: u64, shards: u64, f: &mut dyn FnMut(Number) -> bool) {
        // EAN-8: every seventh number, or all of them
        let step = if cx.thorough() { 1 } else { 7 };
        for i in (shard..10_000_000 / step).step_by(shards as usize) {
            if !f(Number { sym: Sym::Ean8, data: format!("{:07}", i * step) }) {
                return;
            }
        }
    }
    fn enumerated(&self, cx: &Cx, c: &Number) -> bool {
        c.sym == Sym::Ean8 && (cx.thorough() || c.data.parse::<u64>().unwrap() % 7 == 0)
    }
    fn smaller(&self, c: &Number) -> Vec<Number> {
        smaller_number(c)
    }
    fn check(&self, _cx: &Cx, c: &Number, st: &mut Stats) -> Verdict {
        let d = sym::digits(&c.data).unwrap();
        st.nontrivial = d.iter().any(|x| *x != d[0]);
        let right = sym::mod10(&d);
        st.class_if(right == 0, "check digit 0");
        st.add("constructor calls", 11);
        let plain = real::must_encode(c.sym, &c.data)?;
        for last in 0..10u8 {
            let full = format!("{}{last}", c.data);
            match (last == right, real::new(c.sym, &full)?) {
                (true, Ok(v)) => {
                    let r = real::guard("encode", || v.encode_raw())?;
                    if r != plain {
                        fail!("{} {full:?} encodes differently from {:?}", c.sym.name(), c.data);
                    }
                }
                (true, Err(e)) => fail!("{} refuses {full:?} ({}), whose check digit is right", c.sym.name(), real::bit_name(e)),
                (false, Ok(_)) => fail!("{} accepts {full:?}; the check digit is {right}", c.sym.name()),
                (false, Err(E_CHECK)) => {}
                (false, Err(e)) => fail!("{} refuses {full:?} with {}, not Checksum", c.sym.name(), real::bit_name(e)),
            }
        }
        Ok(())
    }
}

pub struct Typos;

impl Prop for Typos {
    type Case = Number;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "correct full-length EAN-13, EAN-8 and UPC-A numbers; on each, every single-digit substitution and every detectable adjacent transposition is applied and must be refused with the checksum error. Non-trivial: the number has at least one detectable transposition."
    }
    fn cases(&self) -> (u64, u64) {
        (800_000, 16_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Number> {
        number(cx)
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Number> {
        RETAIL.iter().flat_map(|s| all_lengths(*s)).collect()
    }
    fn smaller(&self, c: &Number) -> Vec<Number> {
        smaller_number(c)
    }
    fn check(&self, _cx: &Cx, c: &Number, st: &mut Stats) -> Verdict {
        let full: Vec<u8> = gen::with_check(&c.data).into_bytes();
        let s = |v: &[u8]| String::from_utf8(v.to_vec()).unwrap();
        if let Err(e) = real::new(c.sym, &s(&full))? {
            fail!("{} refuses the correct number {:?} ({})", c.sym.name(), s(&full), real::bit_name(e));
        }
        let mut typos: Vec<Vec<u8>> = vec![];
        for i in 0..full.len() {
            for d in b'0'..=b'9' {
                if d != full[i] {
                    let mut t = full.clone();
                    t[i] = d;
                    typos.push(t);
                }
            }
        }
        let subs = typos.len();
        for i in 0..full.len() - 1 {
            let diff = (full[i] as i32 - full[i + 1] as i32).abs();
            if diff != 0 && diff != 5 {
                let mut t = full.clone();
                t.swap(i, i + 1);
                typos.push(t);
            }
        }
        st.nontrivial = typos.len() > subs;
        st.add("substitutions", subs as u64);
        st.add("transpositions", (typos.len() - subs) as u64);
        for t in typos {
            match real::new(c.sym, &s(&t))? {
                Err(E_CHECK) => {}
                Ok(_) => fail!("{} accepts {:?}, a mistyped {:?}", c.sym.name(), s(&t), s(&full)),
                Err(e) => fail!("{} refuses {:?} with {}, not Checksum", c.sym.name(), s(&t), real::bit_name(e)),
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pair {
    pub sym: Sym,
    pub a: String,
    pub b: String,
}

pub struct Clean;

/// Module count of the fixed-width symbologies.
pub fn modules(s: Sym, t: &str) -> Option<usize> {
    let n = t.len();
    Some(match s {
        Sym::Ean13 | Sym::Bookland | Sym::Jan | Sym::Upca => 95,
        Sym::Ean8 => 67,
        Sym::Supp => 4 + n * 9 - 2,
        // start, data, stop, the gaps between them
        Sym::Code39 => (n + 2) * 12 + n + 1,
        Sym::Code39Check => (n + 3) * 12 + n + 2,
        Sym::Code93 => (n + 4) * 9 + 1,
        Sym::Code128 => (sym::c128_symbols(t).ok()?.len() + 2) * 11 + 2,
        Sym::Itf => 8 + (n + n % 2) * 9,
        Sym::Stf => 16 + n * 14,
        Sym::Code11 | Sym::Usd8 | Sym::Codabar => return None,
    })
}

fn clean(s: Sym, t: &str, r: &[u8]) -> Verdict {
    let (n, what) = (r.len(), || format!("{} of {t:?}", s.name()));
    if n == 0 {
        fail!("{} is empty", what());
    }
    if let Some(x) = r.iter().find(|x| **x > 1) {
        fail!("{} has a module {x}", what());
    }
    if r[0] != 1 {
        fail!("{} starts with a space", what());
    }
    let tail = if s == Sym::Stf { &r[n.saturating_sub(2)..] == [1, 0] } else { r[n - 1] == 1 };
    if !tail {
        fail!("{} ends in {}", what(), row_str(&r[n.saturating_sub(8)..]));
    }
    if let Some(i) = (0..n.saturating_sub(4)).find(|&i| r[i..i + 5].iter().all(|x| *x == r[i])) {
        fail!("{} has five equal modules at {i}", what());
    }
    if let Some(m) = modules(s, t) {
        if m != n {
            fail!("{} has {n} modules, should have {m}", what());
        }
    }
    Ok(())
}

impl Prop for Clean {
    type Case = Pair;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "pairs of accepted texts of one symbology: independent, or the second made from the first by one or two valid edits (replace, insert, delete, swap, duplicate, cut, append), including prefixes and appended check digits. Non-trivial: the two differ and both are accepted; a pair related by an appended check digit is compared for equality instead."
    }
    fn cases(&self) -> (u64, u64) {
        (1_200_000, 24_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Pair> {
        let per: Vec<(Sym, BoxedStrategy<Pair>)> = sym::ALL
            .iter()
            .map(|&s| {
                let t = gen::text(cx, s);
                let short = gen::short_text(cx, s);
                let chars: Vec<char> = if s == Sym::Code128 {
                    "\u{179}\u{17A}\u{17C}0123456789ABCabc \u{1}~".chars().collect()
                } else {
                    s.alphabet().chars().collect()
                };
                let e = prop_oneof![
                    4 => (any::<prop::sample::Index>(), select(chars.clone())).prop_map(|(i, c)| gen::Edit::Replace(i, c)),
                    2 => (any::<prop::sample::Index>(), select(chars.clone())).prop_map(|(i, c)| gen::Edit::Insert(i, c)),
                    2 => any::<prop::sample::Index>().prop_map(gen::Edit::Delete),
                    2 => any::<prop::sample::Index>().prop_map(gen::Edit::Swap),
                    1 => any::<prop::sample::Index>().prop_map(gen::Edit::Dup),
                    1 => any::<prop::sample::Index>().prop_map(gen::Edit::Cut),
                    1 => select(chars).prop_map(gen::Edit::Append),
                ];
                let near = (prop_oneof![t.clone(), short.clone()], proptest::collection::vec(e, 1..=2))
                    .prop_map(move |(a, e)| Pair { sym: s, b: gen::apply(&a, &e), a });
                let free = (t.clone(), short).prop_map(move |(a, b)| Pair { sym: s, a, b });
                let digit = t.prop_map(move |a| {
                    let b = sym::digits(&a).map_or(a.clone(), |d| format!("{a}{}", sym::mod10(&d)));
                    Pair { sym: s, a, b }
                });
                (s, boxed(prop_oneof![6 => near, 2 => free, 1 => digit]))
            })
            .collect();
        boxed((0..per.len()).prop_flat_map(move |i| per[i].1.clone()))
    }
    fn smaller(&self, c: &Pair) -> Vec<Pair> {
        let plain = c.sym.alphabet().chars().next().unwrap_or('0');
        let mut v = vec![];
        for a in gen::smaller_text(&c.a, plain) {
            if sym::accept(c.sym, &a).is_ok() {
                v.push(Pair { sym: c.sym, a, b: c.b.clone() });
            }
        }
        for b in gen::smaller_text(&c.b, plain) {
            if sym::accept(c.sym, &b).is_ok() {
                v.push(Pair { sym: c.sym, a: c.a.clone(), b });
            }
        }
        v
    }
    fn check(&self, _cx: &Cx, c: &Pair, st: &mut Stats) -> Verdict {
        if sym::accept(c.sym, &c.a).is_err() {
            return Ok(());
        }
        let ra = real::must_encode(c.sym, &c.a)?;
        clean(c.sym, &c.a, &ra)?;
        if sym::accept(c.sym, &c.b).is_err() {
            st.class("second text not accepted");
            return Ok(());
        }
        let rb = real::must_encode(c.sym, &c.b)?;
        clean(c.sym, &c.b, &rb)?;
        let same = sym::decoded_form(c.sym, &c.a) == sym::decoded_form(c.sym, &c.b);
        st.nontrivial = c.a != c.b;
        st.class_if(same && c.a != c.b, "related by an appended check digit");
        st.class_if(!same && c.a.len() == c.b.len(), "different, equal length");
        st.class_if(!same && (c.a.starts_with(&c.b) || c.b.starts_with(&c.a)), "one a prefix of the other");
        match (same, ra == rb) {
            (true, false) => fail!("{}: {:?} and {:?} are the same data and give different rows", c.sym.name(), c.a, c.b),
            (false, true) => fail!("{}: {:?} and {:?} give the same row", c.sym.name(), c.a, c.b),
            _ => Ok(()),
        }
    }
}
