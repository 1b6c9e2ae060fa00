//! C10, C14: which strings the constructors take, and the error kinds.

use super::encoders::Text;
use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::sym::{self, Sym};
use crate::real;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Mutex;

fn verdict(s: Sym, t: &str, st: &mut Stats) -> Verdict {
    let want = sym::accept(s, t);
    st.class(match want {
        Ok(()) => "accepted",
        Err(m) if m == sym::E_LEN => "length error only",
        Err(m) if m == sym::E_CHAR => "character error only",
        Err(m) if m == sym::E_CHECK => "check digit error only",
        Err(_) => "several faults",
    });
    st.class_if(!t.is_ascii(), "not ASCII");
    let got = real::new(s, t)?;
    match (want, got) {
        (Ok(()), Ok(v)) => {
            real::guard("encode of an accepted value", || v.encode_raw())?;
            Ok(())
        }
        (Ok(()), Err(e)) => fail!("{} refuses {t:?} ({}), which is valid", s.name(), real::bit_name(e)),
        (Err(m), Ok(_)) => fail!("{} accepts {t:?}; expected error {}", s.name(), sym::mask_names(m)),
        (Err(m), Err(e)) if m & e != 0 => Ok(()),
        (Err(m), Err(e)) => fail!(
            "{} refuses {t:?} with {}, expected {}",
            s.name(),
            real::bit_name(e),
            sym::mask_names(m)
        ),
    }
}

pub struct Accept;

pub const NOT_128: [Sym; 14] = [
    Sym::Ean13,
    Sym::Bookland,
    Sym::Jan,
    Sym::Ean8,
    Sym::Upca,
    Sym::Supp,
    Sym::Code39,
    Sym::Code39Check,
    Sym::Code93,
    Sym::Code11,
    Sym::Usd8,
    Sym::Codabar,
    Sym::Itf,
    Sym::Stf,
];

/// `ones` times the digit 1, then the text.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Long {
    pub sym: Sym,
    #[serde(default, skip_serializing_if = "none")]
    pub ones: u64,
    pub text: String,
}
fn none(n: &u64) -> bool {
    *n == 0
}

/// What a process of its own says to a case that takes gigabytes; one at a time.
pub fn alone(what: &str, case: &str) -> Result<String, Fail> {
    static ONE: Mutex<()> = Mutex::new(());
    static SILENT: AtomicU32 = AtomicU32::new(0);
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    // where this cannot be answered, do not spend hours on asking
    if SILENT.load(Ordering::Relaxed) >= 3 {
        return Ok(String::new());
    }
    let mut kid = Command::new("/bin/sh")
        .args(["-c", "ulimit -t 90; exec \"$0\" \"$1\" \"$2\""])
        .arg(std::env::current_exe().map_err(|e| e.to_string())?)
        .args([what, case])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut said = String::new();
    let _ = kid.stdout.take().unwrap().read_to_string(&mut said);
    let _ = kid.wait();
    if said.trim().is_empty() {
        SILENT.fetch_add(1, Ordering::Relaxed);
    }
    Ok(said)
}

/// A text longer than 32 bits can count, of digits: nothing but its length is wrong with
/// it. In a process of its own: code that copies the text before it looks at the length
/// may run out of memory or take long, which is not what is judged here.
fn huge(c: &Long, st: &mut Stats) -> Verdict {
    if c.ones < 1 << 20 || !c.text.bytes().all(|b| b.is_ascii_digit()) {
        return Ok(());
    }
    st.nontrivial = true;
    st.class("length error only");
    let said = alone("huge", &serde_json::to_string(c).unwrap())?;
    match said.trim() {
        "" => {
            st.class("inconclusive: 4 GiB text not judged");
            Ok(())
        }
        "length error" => Ok(()),
        s => fail!("{} with {} digits: {s}, expected the length error", c.sym.name(), c.ones + c.text.len() as u64),
    }
}

/// The process of its own.
pub fn huge_here(json: &str) {
    let c: Long = serde_json::from_str(json).expect("case");
    let mut t = Vec::with_capacity(c.ones as usize + c.text.len());
    t.resize(c.ones as usize, b'1');
    t.extend_from_slice(c.text.as_bytes());
    let t = String::from_utf8(t).unwrap();
    match real::new(c.sym, &t) {
        Err(f) => println!("{}", f.0),
        Ok(Ok(_)) => println!("accepted"),
        Ok(Err(sym::E_LEN)) => println!("length error"),
        Ok(Err(e)) => println!("refused with {}", real::bit_name(e)),
    }
}

impl Prop for Accept {
    type Case = Long;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "per symbology: valid text, valid text with 1-3 edits (look-alike digits, neighbours of the alphabet, multi-byte, control and arbitrary characters; insert, replace, delete, swap, duplicate, cut), wrong lengths up to 65537, texts whose byte length but not character count is permitted, arbitrary Unicode; one text of 4 GiB and a few digits (thorough: one per constructor); enumerated: every code point in one position of otherwise valid text for each constructor. Non-trivial: not accepted, or accepted after an edit (i.e. everything but plain valid text is counted by being refused) - counted: refused texts and accepted texts of boundary length."
    }
    fn cases(&self) -> (u64, u64) {
        (1_500_000, 40_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Long> {
        let per: Vec<(Sym, BoxedStrategy<String>)> = NOT_128.iter().map(|&s| (s, gen::any_text(cx, s))).collect();
        boxed((0..per.len()).prop_flat_map(move |i| {
            let s = per[i].0;
            per[i].1.clone().prop_map(move |text| Long { sym: s, ones: 0, text })
        }))
    }
    fn fixed(&self, cx: &Cx) -> Vec<Long> {
        let mut v = vec![];
        for sym in NOT_128 {
            for n in 0..=40 {
                v.push(Long { sym, ones: 0, text: "5".repeat(n) });
            }
            for n in [254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537, 65548] {
                v.push(Long { sym, ones: 0, text: "9".repeat(n) });
            }
        }
        for sym in NOT_128 {
            // as much memory as the text: one is enough on every change
            if cx.thorough() || sym == Sym::Ean13 {
                v.push(Long { sym, ones: 1 << 32, text: "1".repeat(sym.retail_len().unwrap_or(5)) });
            }
        }
        v
    }
    fn enumerate(&self, _cx: &Cx, shard: u64, shards: u64, f: &mut dyn FnMut(Long) -> bool) {
        for u in (shard..0x110000).step_by(shards as usize) {
            let Some(c) = char::from_u32(u as u32) else { continue };
            for sym in NOT_128 {
                let n = sym.retail_len().unwrap_or(if sym == Sym::Supp { 2 } else { 3 });
                let at = (u as usize / 8) % n;
                let text: String = (0..n).map(|i| if i == at { c } else { '1' }).collect();
                if !f(Long { sym, ones: 0, text }) {
                    return;
                }
            }
        }
    }
    fn smaller(&self, c: &Long) -> Vec<Long> {
        gen::smaller_text(&c.text, '1').into_iter().map(|text| Long { text, ..c.clone() }).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["where a text has more than one fault, any of the matching error kinds is admitted; length is judged in characters, but a non-ASCII text may also be refused for its length in bytes".into()]
    }
    fn check(&self, _cx: &Cx, c: &Long, st: &mut Stats) -> Verdict {
        if c.ones > 0 {
            return huge(c, st);
        }
        let n = c.text.chars().count();
        st.nontrivial = sym::accept(c.sym, &c.text).is_err() || n == 1 || n == 256 || c.sym.retail_len().is_some_and(|l| n > l);
        verdict(c.sym, &c.text, st)
    }
}

pub struct Accept128;

const POOL: &str = "\u{C0}\u{181}\u{106}\u{179}\u{17A}\u{17B}\u{17C}\u{17D}\u{0}\u{1F} 09AZ_`az~\u{7F}\u{80}\u{F7}\u{C1}\u{FF10}1";

impl Prop for Accept128 {
    type Case = Text;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "operation-built valid strings over the three sets, the same with 1-3 edits (markers, function characters, digits, look-alikes, arbitrary characters inserted, replaced, deleted, swapped, cut), short strings over a pool of interesting characters, arbitrary Unicode; enumerated: all strings of up to 4 (thorough: 5) characters from a pool of 27, and after each marker every code point (below U+3000 and in the thorough tier in four surroundings). Non-trivial: refused, or with a switch or a function character."
    }
    fn cases(&self) -> (u64, u64) {
        (2_000_000, 40_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Text> {
        let pool: Vec<char> = POOL.chars().collect();
        let short = proptest::collection::vec(select(pool), 0..=10);
        let cset = proptest::collection::vec(select("\u{106}\u{106}\u{179}\u{C0}0123456789A".chars().collect::<Vec<_>>()), 0..=12);
        boxed(
            prop_oneof![
                6 => gen::any_text(cx, Sym::Code128),
                2 => short.prop_map(|v| v.into_iter().collect::<String>()),
                2 => cset.prop_map(|v| "\u{106}".chars().chain(v).collect::<String>()),
                3 => (gen::c128_text(cx, 12), proptest::collection::vec(gen::edit(cx), 0..=2)).prop_map(|(t, e)| gen::apply(&t, &e)),
                // now and then a long one, with nothing or little wrong with it
                1 => (0u8..25).prop_flat_map(|d| if d == 0 { boxed(gen::c128_long(4000)) } else { boxed(gen::c128_long(240)) })
                    .prop_flat_map(|t| (Just(t), any::<prop::sample::Index>(), select(POOL.chars().collect::<Vec<_>>()), 0u8..3))
                    .prop_map(|(t, i, c, what)| {
                        let mut v: Vec<char> = t.chars().collect();
                        let i = i.index(v.len());
                        match what {
                            0 => {}
                            1 => v[i] = c,
                            _ => v.insert(i, c),
                        }
                        v.into_iter().collect()
                    }),
            ]
            .prop_map(|text| Text { sym: Sym::Code128, text }),
        )
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Text> {
        ["", "\u{C0}", "\u{181}", "\u{106}", "A", "1", "\u{106}1\u{179}2", "\u{106}1", "\u{181}\u{7F}", "\u{181}\u{F7}", "\u{C0}\u{C0}", "\u{106}12\u{106}34"]
            .iter()
            .map(|t| t.to_string())
            .chain([254, 255, 256, 257, 511, 512, 1000, 4095, 4097, 65_536, 70_000, 131_080, 1_050_003].into_iter().flat_map(|n| {
                // long texts, right and wrong at the very end
                [("\u{181}", "aZ~ 0"), ("\u{C0}", "A\t9 "), ("\u{106}", "1"), ("\u{106}", "\u{179}"), ("\u{C0}", "A\u{181}a\u{106}12\u{C0}")]
                    .into_iter()
                    .flat_map(move |(m, of)| {
                        let t: String = m.chars().chain(of.chars().cycle().take(n)).collect();
                        [t.clone() + "1", t.clone() + "\u{7F}", t.clone() + "\u{106}1", t]
                    })
            }))
            .map(|text| Text { sym: Sym::Code128, text })
            .collect()
    }
    fn enumerate(&self, cx: &Cx, shard: u64, shards: u64, f: &mut dyn FnMut(Text) -> bool) {
        let pool: Vec<char> = POOL.chars().collect();
        let k = pool.len() as u64;
        for n in 0..=if cx.thorough() { 5 } else { 4 } {
            for i in (shard..k.pow(n)).step_by(shards as usize) {
                let mut x = i;
                let mut text = String::new();
                for _ in 0..n {
                    text.push(pool[(x % k) as usize]);
                    x /= k;
                }
                if !f(Text { sym: Sym::Code128, text }) {
                    return;
                }
            }
        }
        for u in (shard..0x110000).step_by(shards as usize) {
            let Some(c) = char::from_u32(u as u32) else { continue };
            for m in [sym::MARK_A, sym::MARK_B, sym::MARK_C] {
                let texts = [format!("{m}1{c}"), format!("{m}{c}"), format!("{m}{c}1"), format!("{m}00{c}{c}")];
                // most of them are refused alike
                let n = if u < 0x3000 || cx.thorough() { 4 } else { 1 };
                for text in texts.into_iter().take(n) {
                    if !f(Text { sym: Sym::Code128, text }) {
                        return;
                    }
                }
            }
        }
    }
    fn smaller(&self, c: &Text) -> Vec<Text> {
        gen::smaller_text(&c.text, '0').into_iter().map(|text| Text { sym: c.sym, text }).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a single character that is no marker may be refused with either error".into()]
    }
    fn check(&self, _cx: &Cx, c: &Text, st: &mut Stats) -> Verdict {
        let r = sym::accept(Sym::Code128, &c.text);
        st.nontrivial = r.is_err()
            || c.text.chars().skip(1).any(|c| sym::marker(c).is_some() || (sym::FNC1..=sym::SHIFT).contains(&c));
        verdict(Sym::Code128, &c.text, st)
    }
}
