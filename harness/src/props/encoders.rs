//! C01-C04, C06-C09, C11-C13: every encoder against its reference encoder and
//! against a strict decoder.

use crate::engine::{boxed, Cx, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::row_diff;
use crate::model::sym::{self, Sym};
use crate::real;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Text {
    pub sym: Sym,
    pub text: String,
}

pub struct Enc {
    id: &'static str,
    syms: &'static [Sym],
}

impl Enc {
    pub fn new(id: &'static str, syms: &'static [Sym]) -> Enc {
        Enc { id, syms }
    }
    /// Longest strings that are enumerated completely.
    fn short(&self, cx: &Cx) -> usize {
        match (self.syms[0], cx.thorough()) {
            (Sym::Ean13 | Sym::Upca, _) => 0,
            (Sym::Ean8, _) => 7,
            (Sym::Supp, _) => 5,
            (Sym::Code39, t) | (Sym::Code93, t) => 2 + usize::from(t),
            (Sym::Code11, t) | (Sym::Itf, t) | (Sym::Stf, t) => 4 + usize::from(t),
            (Sym::Codabar, t) => 3 + usize::from(t),
            (Sym::Code128, _) => 3,
            _ => 0,
        }
    }
    fn alphabet(&self) -> Vec<char> {
        if self.syms[0] == Sym::Code128 {
            let mut v: Vec<char> = (0..128u8).map(|b| b as char).collect();
            v.extend([sym::MARK_A, sym::MARK_B, sym::MARK_C, sym::FNC1, sym::FNC2, sym::FNC3, sym::FNC4, sym::SHIFT, sym::DIVIDE]);
            v
        } else {
            self.syms[0].alphabet().chars().collect()
        }
    }
}

/// Splits a Codabar row into the patterns of its characters: published ones, or
/// ones listed as known findings. Err on anything else.
fn codabar_known(cx: &Cx, text: &str, row: &[u8], st: &mut Stats) -> Verdict {
    let mut at = 0;
    for (i, c) in text.chars().enumerate() {
        if i > 0 {
            if row.get(at) != Some(&0) {
                fail!("no narrow space before character {i} at module {at}");
            }
            at += 1;
        }
        let std = sym::codabar_char(c);
        if row[at.min(row.len())..].starts_with(&std) {
            at += std.len();
            continue;
        }
        let hit = cx.known.iter().filter(|k| k.property == "C11").find_map(|k| {
            let (ch, pat) = k.key.split_once(" as ")?;
            let pat: Vec<u8> = pat.bytes().map(|b| b - b'0').collect();
            (ch.chars().eq([c]) && row[at.min(row.len())..].starts_with(&pat)).then_some((k, pat.len()))
        });
        match hit {
            Some((k, n)) => {
                *st.known.entry(k.key.clone()).or_insert(0) += 1;
                at += n;
            }
            None => {
                let end = (at + 14).min(row.len());
                fail!(
                    "character {i} ({c:?}) of {text:?} should be {} and is ..{}..",
                    crate::model::render::row_str(&std),
                    crate::model::render::row_str(&row[at.min(end)..end])
                )
            }
        }
    }
    if at != row.len() {
        fail!("{} modules after the last character of {text:?}", row.len() - at);
    }
    Ok(())
}

pub fn check_encoding(cx: &Cx, s: Sym, text: &str, row: &[u8], st: &mut Stats) -> Verdict {
    let want = sym::encode(s, text);
    if s == Sym::Codabar && row != want {
        return codabar_known(cx, text, row, st);
    }
    if row != want {
        fail!("{} of {text:?}: {}", s.name(), row_diff(&want, row));
    }
    Ok(())
}

impl Prop for Enc {
    type Case = Text;

    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "C01" => "12-digit strings (uniform, few digits, 0/9-heavy, prefixes, harvested literals), half with their check digit, through EAN13, Bookland and JAN. Non-trivial: the six left digits are not all equal.",
            "C02" => "all 10^7 seven-digit strings, and generated 7- and 8-digit ones. Non-trivial: not all digits equal.",
            "C03" => "11-digit strings (uniform, few digits, 0/9-heavy, prefixes, harvested literals), half with their check digit; also compared with EAN-13 of '0' + digits. Non-trivial: digits not all equal.",
            "C04" => "all 100 two-digit and all 100000 five-digit strings, and generated ones. Non-trivial: digits not all equal.",
            "C06" => "strings of 1..256 alphabet characters (boundary lengths, uniform / few / repeated / high-valued / ends-of-alphabet / sequential / harvested), all strings of length 1 and 2, with checksum by constructor, by flag, and without. Non-trivial: at least two different characters.",
            "C07" => "strings of 1..256 alphabet characters (boundary lengths around the weight wraps 15 and 20), all strings of length 1 and 2. Non-trivial: at least two different characters.",
            "C08" => "strings of 1..256 digits and dashes (boundary lengths around 9, 10, 11 and their multiples), all strings up to length 4. Non-trivial: at least two different characters.",
            "C09" => "operation-built Code 128 strings over sets A, B, C with switches, FNC1-4, SHIFT, harvested literals and long data (up to about 9000 symbols), and every accepted string of marker plus one or two characters. Non-trivial: a switch, a function character, or at least 3 different symbol values.",
            "C11" => "strings of 1..256 alphabet characters, all strings up to length 3. Non-trivial: at least two different characters.",
            "C12" => "strings of 1..256 digits (boundary lengths, 9-heavy), all strings up to length 4. Non-trivial: at least two different digits or odd length.",
            _ => "strings of 1..256 digits (boundary lengths), all strings up to length 4. Non-trivial: at least two different digits.",
        }
    }
    fn cases(&self) -> (u64, u64) {
        match self.id {
            "C01" | "C03" => (5_000_000, 100_000_000),
            "C02" | "C04" => (500_000, 5_000_000),
            "C09" => (500_000, 10_000_000),
            _ => (1_000_000, 20_000_000),
        }
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Text> {
        let syms = self.syms;
        let mut u: Vec<(u32, BoxedStrategy<String>)> = vec![(40, gen::text(cx, syms[0]))];
        if self.id == "C09" {
            u.push((20, boxed(gen::c128_text(cx, 200))));
            u.push((1, boxed(gen::c128_long(if cx.thorough() { 60_000 } else { 9_000 }))));
        }
        boxed((Union::new_weighted(u), select(syms)).prop_map(|(text, sym)| Text { sym, text }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Text> {
        let mut v = vec![];
        for &sym in self.syms {
            match sym {
                Sym::Itf => {
                    for n in [85, 87, 99, 171, 255] {
                        v.push(Text { sym, text: "9".repeat(n) });
                    }
                    for n in 1..=256 {
                        for c in "0123456789".chars() {
                            v.push(Text { sym, text: c.to_string().repeat(n) });
                        }
                        v.push(Text { sym, text: "1234567890".chars().cycle().skip(n % 10).take(n).collect() });
                    }
                }
                Sym::Code128 => {
                    for t in ["\u{181}\u{7F}", "\u{106}\u{179}00", "\u{C0}\u{179}", "\u{106}00\u{179}00"] {
                        v.push(Text { sym, text: t.into() });
                    }
                    // every character alone and at most lengths
                    let marked = |m: char, c: &str, n: usize| Text { sym, text: m.to_string() + &c.repeat(n) };
                    for n in 1..=110 {
                        for u in 0..96 {
                            v.push(marked('\u{C0}', &char::from(u).to_string(), n));
                            v.push(marked('\u{181}', &char::from(u + 32).to_string(), n));
                        }
                        for u in (0..100).filter(|_| n <= 60) {
                            v.push(marked('\u{106}', &format!("{u:02}"), n));
                        }
                    }
                    v.push(Text { sym, text: "\u{181}".to_string() + &"~".repeat(9000) });
                    v.push(Text { sym, text: "\u{106}".to_string() + &"99".repeat(9000) });
                    // beyond what 16 bits count
                    for n in (65_530..65_545).chain([70_000, 131_080, 200_003, 1_050_003]) {
                        let letters = "aB~ 5x!Q".chars().cycle().skip(n % 7).take(n);
                        v.push(Text { sym, text: "\u{181}".chars().chain(letters).collect() });
                    }
                    v.push(Text { sym, text: "\u{106}".to_string() + &"9081726354".repeat(14_000) });
                }
                _ if sym.len_ok(256) => {
                    // every character alone, at every length, also behind and before another
                    let all: Vec<char> = sym.alphabet().chars().collect();
                    for (i, c) in all.iter().enumerate() {
                        for n in 4..=256 {
                            let mut t = vec![*c; n];
                            match n % 3 {
                                0 => {}
                                1 => t[n - 1] = all[(i + n) % all.len()],
                                _ => t[0] = all[(i + n) % all.len()],
                            }
                            v.push(Text { sym, text: t.into_iter().collect() });
                        }
                        v.push(Text { sym, text: c.to_string().repeat(256) });
                    }
                    v.push(Text { sym, text: sym.alphabet().into() });
                    v.push(Text { sym, text: sym.alphabet().chars().rev().collect() });
                }
                _ => {}
            }
        }
        v
    }
    fn enumerate(&self, cx: &Cx, shard: u64, shards: u64, f: &mut dyn FnMut(Text) -> bool) {
        let a = self.alphabet();
        let k = a.len() as u64;
        let c128 = self.syms[0] == Sym::Code128;
        for n in 1..=self.short(cx) {
            if !c128 && !self.syms[0].len_ok(n) {
                continue;
            }
            let total = if c128 { 3 * k.pow(n as u32 - 1) } else { k.pow(n as u32) };
            let mut i = shard;
            while i < total {
                let mut x = i;
                let mut t = String::new();
                if c128 {
                    t.push([sym::MARK_A, sym::MARK_B, sym::MARK_C][(x % 3) as usize]);
                    x /= 3;
                }
                for _ in 0..n - usize::from(c128) {
                    t.push(a[(x % k) as usize]);
                    x /= k;
                }
                i += shards;
                if c128 && sym::accept(Sym::Code128, &t).is_err() {
                    continue;
                }
                for &sym in self.syms {
                    if !f(Text { sym, text: t.clone() }) {
                        return;
                    }
                }
            }
        }
    }
    fn exhaustive(&self) -> bool {
        matches!(self.id, "C02" | "C04")
    }
    fn enumerated(&self, cx: &Cx, c: &Text) -> bool {
        c.text.chars().count() <= self.short(cx)
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = vec!["the published pattern tables are those of harness/src/model/tables.rs".to_string()];
        if self.id == "C11" {
            v.push("patterns listed in known_findings.json for this property are tolerated, for those characters only".into());
        }
        v
    }
    fn smaller(&self, c: &Text) -> Vec<Text> {
        let plain = c.sym.alphabet().chars().next().unwrap_or('A');
        gen::smaller_text(&c.text, plain)
            .into_iter()
            .filter(|t| sym::accept(c.sym, t).is_ok())
            .map(|text| Text { sym: c.sym, text })
            .collect()
    }
    fn check(&self, cx: &Cx, c: &Text, st: &mut Stats) -> Verdict {
        let (s, t) = (c.sym, &c.text[..]);
        debug_assert!(sym::accept(s, t).is_ok());
        let b = t.as_bytes();
        let n = b.len();
        st.nontrivial = match s {
            Sym::Ean13 | Sym::Bookland | Sym::Jan => b[1..7].iter().any(|x| *x != b[1]),
            Sym::Itf => n % 2 == 1 || b.iter().any(|x| *x != b[0]),
            Sym::Code128 => {
                let v = sym::c128_symbols(t).unwrap();
                let switches = t.chars().filter(|c| sym::marker(*c).is_some()).count() - 1;
                st.class_if(switches > 0, "with a switch");
                st.class_if(v[1..].iter().any(|x| *x == 102), "with FNC1");
                st.class_if(v.len() > 1000, "longer than 1000 symbols");
                st.class_if(v.len() > 6400, "longer than 6400 symbols");
                st.class_if(v[0] == 105, "starts in C");
                let mut d = v.clone();
                d.sort_unstable();
                d.dedup();
                switches > 0 || v[1..].iter().any(|x| (96..=98).contains(x) || *x >= 101) || d.len() > 3
            }
            _ => b.iter().any(|x| *x != b[0]),
        };
        match s.retail_len() {
            Some(l) => st.class_if(n > l, "with check digit supplied"),
            None => {
                st.class_if(n > 10, "longer than 10");
                st.class_if(n > 20, "longer than 20");
                st.class_if(n > 128, "longer than 128");
                st.class_if(n == 256, "256 characters");
            }
        }

        let row = real::must_encode(s, t)?;
        check_encoding(cx, s, t, &row, st)?;
        // Reading the symbol back (implied by equality with the reference row unless
        // the reference is wrong; both are checked).
        if s != Sym::Codabar || row == sym::encode(s, t) {
            match sym::decode(s, &row) {
                Ok(d) if d == sym::decoded_form(s, t) => {}
                Ok(d) => fail!("{} of {t:?} reads back as {d:?}", s.name()),
                Err(e) => fail!("{} of {t:?} cannot be read back: {e}", s.name()),
            }
        }
        match s {
            Sym::Upca => {
                let e = real::must_encode(Sym::Ean13, &format!("0{t}"))?;
                if e != row {
                    fail!("UPC-A of {t:?} is not EAN-13 of 0{t}: {}", row_diff(&e, &row));
                }
            }
            Sym::Code39 | Sym::Code39Check => {
                // the checksum flag set afterwards
                let flag = s == Sym::Code39Check;
                let other = if flag { Sym::Code39 } else { Sym::Code39Check };
                match real::new(other, t)? {
                    Ok(real::Val::Code39(mut v)) => {
                        v.checksum = flag;
                        let r = real::guard("encode", || v.encode())?;
                        if r != row {
                            fail!("Code 39 of {t:?} with the checksum flag set to {flag} afterwards: {}", row_diff(&row, &r));
                        }
                    }
                    _ => fail!("Code 39 constructors disagree on {t:?}"),
                }
            }
            _ => {}
        }
        Ok(())
    }
}
