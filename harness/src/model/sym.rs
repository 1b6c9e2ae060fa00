//! Reference encoders, strict decoders and acceptance predicates of all symbologies.

use super::tables::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Sym {
    Ean13,
    Bookland,
    Jan,
    Ean8,
    Upca,
    Supp,
    Code39,
    Code39Check,
    Code93,
    Code11,
    Usd8,
    Code128,
    Codabar,
    Itf,
    Stf,
}

pub const ALL: [Sym; 15] = [
    Sym::Ean13,
    Sym::Bookland,
    Sym::Jan,
    Sym::Ean8,
    Sym::Upca,
    Sym::Supp,
    Sym::Code39,
    Sym::Code39Check,
    Sym::Code93,
    Sym::Code11,
    Sym::Usd8,
    Sym::Code128,
    Sym::Codabar,
    Sym::Itf,
    Sym::Stf,
];

impl Sym {
    pub fn name(self) -> &'static str {
        match self {
            Sym::Ean13 => "ean13",
            Sym::Bookland => "bookland",
            Sym::Jan => "jan",
            Sym::Ean8 => "ean8",
            Sym::Upca => "upca",
            Sym::Supp => "supp",
            Sym::Code39 => "code39",
            Sym::Code39Check => "code39check",
            Sym::Code93 => "code93",
            Sym::Code11 => "code11",
            Sym::Usd8 => "usd8",
            Sym::Code128 => "code128",
            Sym::Codabar => "codabar",
            Sym::Itf => "itf",
            Sym::Stf => "stf",
        }
    }
    /// Data alphabet (not Code 128).
    pub fn alphabet(self) -> &'static str {
        match self {
            Sym::Code39 | Sym::Code39Check => CODE39_ALPHABET,
            Sym::Code93 => CODE93_ALPHABET,
            Sym::Code11 | Sym::Usd8 => CODE11_ALPHABET,
            Sym::Codabar => CODABAR_ALPHABET,
            Sym::Code128 => "",
            _ => "0123456789",
        }
    }
    pub fn len_ok(self, n: usize) -> bool {
        match self {
            Sym::Ean13 | Sym::Bookland | Sym::Jan => n == 12 || n == 13,
            Sym::Ean8 => n == 7 || n == 8,
            Sym::Upca => n == 11 || n == 12,
            Sym::Supp => n == 2 || n == 5,
            Sym::Code128 => n >= 2,
            _ => (1..=256).contains(&n),
        }
    }
    /// Number of data digits of the retail symbologies with a check digit.
    pub fn retail_len(self) -> Option<usize> {
        match self {
            Sym::Ean13 | Sym::Bookland | Sym::Jan => Some(12),
            Sym::Ean8 => Some(7),
            Sym::Upca => Some(11),
            _ => None,
        }
    }
}

pub const E_LEN: u8 = 1;
pub const E_CHAR: u8 = 2;
pub const E_CHECK: u8 = 4;

pub fn mask_names(m: u8) -> String {
    let mut v = vec![];
    if m & E_LEN != 0 {
        v.push("Length")
    }
    if m & E_CHAR != 0 {
        v.push("Character")
    }
    if m & E_CHECK != 0 {
        v.push("Checksum")
    }
    v.join("|")
}

/// GS1 / ITF check digit: weight 3 on the rightmost data digit, then alternating.
pub fn mod10(d: &[u8]) -> u8 {
    let s: u64 = d
        .iter()
        .rev()
        .enumerate()
        .map(|(i, &x)| x as u64 * if i % 2 == 0 { 3 } else { 1 })
        .sum();
    ((10 - s % 10) % 10) as u8
}

pub fn digits(s: &str) -> Option<Vec<u8>> {
    s.chars()
        .map(|c| if c.is_ascii_digit() { Some(c as u8 - b'0') } else { None })
        .collect()
}

/// Acceptance: Ok, or the set of admissible error kinds.
pub fn accept(sym: Sym, text: &str) -> Result<(), u8> {
    if sym == Sym::Code128 {
        return c128_symbols(text).map(|_| ());
    }
    let nchars = text.chars().count();
    let nbytes = text.len();
    let alpha = sym.alphabet();
    let bad = text.chars().any(|c| !alpha.contains(c));
    if bad {
        let mut m = E_CHAR;
        if !sym.len_ok(nchars) || !sym.len_ok(nbytes) {
            m |= E_LEN;
        }
        return Err(m);
    }
    if !sym.len_ok(nchars) {
        return Err(E_LEN);
    }
    if let Some(n) = sym.retail_len() {
        if nchars == n + 1 {
            let d = digits(text).unwrap();
            if mod10(&d[..n]) != d[n] {
                return Err(E_CHECK);
            }
        }
    }
    Ok(())
}

/// Reference encoding of accepted text.
pub fn encode(sym: Sym, text: &str) -> Vec<u8> {
    match sym {
        Sym::Ean13 | Sym::Bookland | Sym::Jan => ean13(&digits(text).unwrap()[..12]),
        Sym::Ean8 => ean8(&digits(text).unwrap()[..7]),
        Sym::Upca => upca(&digits(text).unwrap()[..11]),
        Sym::Supp => supp(&digits(text).unwrap()),
        Sym::Code39 => code39(text, false),
        Sym::Code39Check => code39(text, true),
        Sym::Code93 => code93(text),
        Sym::Code11 | Sym::Usd8 => code11(text),
        Sym::Code128 => c128_row(&c128_symbols(text).unwrap()),
        Sym::Codabar => codabar(text),
        Sym::Itf => itf(&digits(text).unwrap()),
        Sym::Stf => stf(&digits(text).unwrap()),
    }
}

// ---------------------------------------------------------------- helpers

fn bits(out: &mut Vec<u8>, s: &str) {
    out.extend(s.bytes().map(|b| b - b'0'));
}

/// Alternating runs starting with `first`.
fn runs(out: &mut Vec<u8>, first: u8, widths: impl IntoIterator<Item = u8>) {
    let mut c = first;
    for w in widths {
        for _ in 0..w {
            out.push(c);
        }
        c ^= 1;
    }
}

fn wide_mask(out: &mut Vec<u8>, mask: u32, elements: u32, wide: u8) {
    runs(
        out,
        1,
        (0..elements)
            .rev()
            .map(|i| if (mask >> i) & 1 == 1 { wide } else { 1 }),
    );
}

fn index_in(alpha: &str, c: char) -> usize {
    alpha.chars().position(|x| x == c).expect("character in alphabet")
}

/// Weighted check value, weights 1..=max cyclically from the right.
fn weighted(values: &[usize], max: usize, modulus: usize) -> usize {
    values
        .iter()
        .rev()
        .enumerate()
        .map(|(i, v)| (i % max + 1) * v)
        .sum::<usize>()
        % modulus
}

// ---------------------------------------------------------------- retail

fn ean_l(out: &mut Vec<u8>, d: u8, even: bool) {
    let w = EAN_WIDTHS[d as usize];
    if even {
        runs(out, 0, w.iter().rev().copied());
    } else {
        runs(out, 0, w);
    }
}
fn ean_r(out: &mut Vec<u8>, d: u8) {
    runs(out, 1, EAN_WIDTHS[d as usize]);
}

pub fn ean13(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    bits(&mut o, "101");
    let par = EAN13_FIRST[d[0] as usize];
    for i in 0..6 {
        ean_l(&mut o, d[1 + i], (par >> (5 - i)) & 1 == 1);
    }
    bits(&mut o, "01010");
    for &x in &d[7..12] {
        ean_r(&mut o, x);
    }
    ean_r(&mut o, mod10(d));
    bits(&mut o, "101");
    o
}

pub fn upca(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    bits(&mut o, "101");
    for &x in &d[..6] {
        ean_l(&mut o, x, false);
    }
    bits(&mut o, "01010");
    for &x in &d[6..11] {
        ean_r(&mut o, x);
    }
    ean_r(&mut o, mod10(d));
    bits(&mut o, "101");
    o
}

pub fn ean8(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    bits(&mut o, "101");
    for &x in &d[..4] {
        ean_l(&mut o, x, false);
    }
    bits(&mut o, "01010");
    for &x in &d[4..7] {
        ean_r(&mut o, x);
    }
    ean_r(&mut o, mod10(d));
    bits(&mut o, "101");
    o
}

pub fn supp_parity(d: &[u8]) -> Vec<bool> {
    if d.len() == 2 {
        let m = (d[0] as u32 * 10 + d[1] as u32) % 4;
        vec![m & 2 != 0, m & 1 != 0]
    } else {
        let s: u32 = d
            .iter()
            .enumerate()
            .map(|(i, &x)| x as u32 * if i % 2 == 0 { 3 } else { 9 })
            .sum();
        let p = EAN5_CHECK[(s % 10) as usize];
        (0..5).map(|i| (p >> (4 - i)) & 1 == 1).collect()
    }
}

pub fn supp(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    bits(&mut o, "1011");
    for (i, (&x, even)) in d.iter().zip(supp_parity(d)).enumerate() {
        if i > 0 {
            bits(&mut o, "01");
        }
        ean_l(&mut o, x, even);
    }
    o
}

// ---------------------------------------------------------------- industrial

pub fn code39(text: &str, check: bool) -> Vec<u8> {
    let mut v: Vec<usize> = text.chars().map(|c| index_in(CODE39_ALPHABET, c)).collect();
    if check {
        v.push(v.iter().sum::<usize>() % 43);
    }
    let mut o = vec![];
    wide_mask(&mut o, CODE39_STAR as u32, 9, 2);
    for x in v {
        o.push(0);
        wide_mask(&mut o, CODE39_MASK[x] as u32, 9, 2);
    }
    o.push(0);
    wide_mask(&mut o, CODE39_STAR as u32, 9, 2);
    o
}

pub fn code93(text: &str) -> Vec<u8> {
    let mut v: Vec<usize> = text.chars().map(|c| index_in(CODE93_ALPHABET, c)).collect();
    v.push(weighted(&v, 20, 47));
    v.push(weighted(&v, 15, 47));
    let mut o = vec![];
    let mut sym = |m: u16| o.extend((0..9).rev().map(|i| ((m >> i) & 1) as u8));
    sym(CODE93_STAR);
    for x in v {
        sym(CODE93_MASK[x]);
    }
    sym(CODE93_STAR);
    o.push(1);
    o
}

pub fn code11(text: &str) -> Vec<u8> {
    let mut v: Vec<usize> = text.chars().map(|c| index_in(CODE11_ALPHABET, c)).collect();
    let n = v.len();
    v.push(weighted(&v, 10, 11));
    if n > 10 {
        v.push(weighted(&v, 9, 11));
    }
    let mut o = vec![];
    wide_mask(&mut o, CODE11_STAR as u32, 5, 2);
    for x in v {
        o.push(0);
        wide_mask(&mut o, CODE11_MASK[x] as u32, 5, 2);
    }
    o.push(0);
    wide_mask(&mut o, CODE11_STAR as u32, 5, 2);
    o
}

pub fn codabar_char(c: char) -> Vec<u8> {
    let mut o = vec![];
    wide_mask(&mut o, CODABAR_MASK[index_in(CODABAR_ALPHABET, c)] as u32, 7, 2);
    o
}

pub fn codabar(text: &str) -> Vec<u8> {
    let mut o = vec![];
    for (i, c) in text.chars().enumerate() {
        if i > 0 {
            o.push(0);
        }
        o.extend(codabar_char(c));
    }
    o
}

pub fn itf(d: &[u8]) -> Vec<u8> {
    let mut d = d.to_vec();
    if d.len() % 2 == 1 {
        d.push(mod10(&d));
    }
    let mut o = vec![];
    bits(&mut o, "1010");
    for p in d.chunks(2) {
        let (b, s) = (two_of_five(p[0]), two_of_five(p[1]));
        for i in 0..5 {
            runs(&mut o, 1, [if b[i] { 3 } else { 1 }, if s[i] { 3 } else { 1 }]);
        }
    }
    bits(&mut o, "1101");
    o
}

pub fn stf(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    bits(&mut o, "11011010");
    for &x in d {
        for w in two_of_five(x) {
            runs(&mut o, 1, [if w { 3 } else { 1 }, 1]);
        }
    }
    bits(&mut o, "11010110");
    o
}

// ---------------------------------------------------------------- Code 128

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Set {
    A,
    B,
    C,
}

pub const MARK_A: char = '\u{C0}';
pub const MARK_B: char = '\u{181}';
pub const MARK_C: char = '\u{106}';
pub const FNC1: char = '\u{179}';
pub const FNC2: char = '\u{17A}';
pub const FNC3: char = '\u{17B}';
pub const FNC4: char = '\u{17C}';
pub const SHIFT: char = '\u{17D}';
pub const DIVIDE: char = '\u{F7}';

pub fn marker(c: char) -> Option<Set> {
    match c {
        MARK_A => Some(Set::A),
        MARK_B => Some(Set::B),
        MARK_C => Some(Set::C),
        _ => None,
    }
}

/// Value of a non-marker character in sets A and B, or of FNC1 in C.
pub fn c128_value(set: Set, c: char) -> Option<u8> {
    let u = c as u32;
    match (set, c) {
        (_, FNC1) => Some(102),
        (Set::C, _) => None,
        (_, FNC3) => Some(96),
        (_, FNC2) => Some(97),
        (_, SHIFT) => Some(98),
        (Set::A, FNC4) => Some(101),
        (Set::B, FNC4) => Some(100),
        (Set::A, _) if u < 32 => Some((u + 64) as u8),
        (Set::A, _) if (32..96).contains(&u) => Some((u - 32) as u8),
        (Set::B, _) if (32..128).contains(&u) => Some((u - 32) as u8),
        // this library's other way of writing DEL
        (Set::B, DIVIDE) => Some(95),
        _ => None,
    }
}

fn switch_value(from: Set, to: Set) -> Option<u8> {
    match (from, to) {
        (Set::A, Set::A) | (Set::B, Set::B) | (Set::C, Set::C) => None,
        (_, Set::C) => Some(99),
        (_, Set::B) => Some(100),
        (_, Set::A) => Some(101),
    }
}

/// Symbol values of the data, start first, without check and stop.
pub fn c128_symbols(text: &str) -> Result<Vec<u8>, u8> {
    let chars: Vec<char> = text.chars().collect();
    if chars.len() < 2 {
        let lone = chars.first().map_or(false, |c| marker(*c).is_some());
        return Err(if chars.is_empty() || lone { E_LEN } else { E_LEN | E_CHAR });
    }
    let mut set = marker(chars[0]).ok_or(E_CHAR)?;
    let mut out = vec![103 + set as u8];
    let mut i = 1;
    while i < chars.len() {
        let c = chars[i];
        if let Some(to) = marker(c) {
            out.push(switch_value(set, to).ok_or(E_CHAR)?);
            set = to;
        } else if set == Set::C && c.is_ascii_digit() {
            match chars.get(i + 1) {
                Some(d) if d.is_ascii_digit() => {
                    out.push((c as u8 - b'0') * 10 + (*d as u8 - b'0'));
                    i += 1;
                }
                _ => return Err(E_CHAR),
            }
        } else {
            out.push(c128_value(set, c).ok_or(E_CHAR)?);
        }
        i += 1;
    }
    Ok(out)
}

pub fn c128_check(sym: &[u8]) -> u8 {
    let mut s = sym[0] as u64;
    for (i, &v) in sym.iter().enumerate().skip(1) {
        s = (s + i as u64 * v as u64) % 103;
    }
    (s % 103) as u8
}

fn widths_of(mut w: u32) -> Vec<u8> {
    let mut v = vec![];
    while w > 0 {
        v.push((w % 10) as u8);
        w /= 10;
    }
    v.reverse();
    v
}

pub fn c128_row(sym: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(sym.len() * 11 + 24);
    for &v in sym.iter().chain([&c128_check(sym)]) {
        let w = CODE128_WIDTHS[v as usize];
        let mut c = 1;
        let mut div = 100_000;
        while div > 0 {
            for _ in 0..(w / div) % 10 {
                o.push(c);
            }
            c ^= 1;
            div /= 10;
        }
    }
    runs(&mut o, 1, widths_of(CODE128_STOP));
    o
}

// ---------------------------------------------------------------- decoders

type D<T> = Result<T, String>;

struct Cur<'a> {
    row: &'a [u8],
    at: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.at + n > self.row.len() {
            return Err(format!("row of {} modules ends inside an element at {}", self.row.len(), self.at));
        }
        self.at += n;
        Ok(&self.row[self.at - n..self.at])
    }
    fn expect(&mut self, s: &str) -> D<()> {
        let at = self.at;
        let g = self.take(s.len())?;
        if g.iter().zip(s.bytes()).all(|(a, b)| *a == b - b'0') {
            Ok(())
        } else {
            Err(format!("expected {s} at module {at}"))
        }
    }
    fn run(&mut self, colour: u8) -> D<usize> {
        let mut n = 0;
        while self.at < self.row.len() && self.row[self.at] == colour {
            self.at += 1;
            n += 1;
        }
        if n == 0 {
            return Err(format!("expected {} at module {}", if colour == 1 { "a bar" } else { "a space" }, self.at));
        }
        Ok(n)
    }
    fn left(&self) -> usize {
        self.row.len() - self.at
    }
    fn end(&self) -> D<()> {
        if self.left() == 0 {
            Ok(())
        } else {
            Err(format!("{} modules after the end", self.left()))
        }
    }
}

/// Reads one 7-module retail digit: (digit, set) with set 0 = A, 1 = B, 2 = C.
fn ean_digit(c: &mut Cur) -> D<(u8, u8)> {
    let at = c.at;
    let g = c.take(7)?;
    let mut w = vec![];
    let mut i = 0;
    while i < 7 {
        let mut n = 0;
        let v = g[i];
        while i < 7 && g[i] == v {
            i += 1;
            n += 1;
        }
        w.push(n as u8);
    }
    if w.len() == 4 {
        for (d, t) in EAN_WIDTHS.iter().enumerate() {
            if w[..] == t[..] {
                return Ok((d as u8, if g[0] == 0 { 0 } else { 2 }));
            }
        }
        let r: Vec<u8> = w.iter().rev().copied().collect();
        for (d, t) in EAN_WIDTHS.iter().enumerate() {
            if r[..] == t[..] && g[0] == 0 {
                return Ok((d as u8, 1));
            }
        }
    }
    Err(format!("no digit at module {at}"))
}

fn narrow_wide(c: &mut Cur, elements: usize, wide: usize) -> D<u32> {
    let mut m = 0;
    for i in 0..elements {
        let n = c.run(if i % 2 == 0 { 1 } else { 0 })?;
        m = m << 1
            | match n {
                1 => 0,
                n if n == wide => 1,
                n => return Err(format!("element of {n} modules at {}", c.at)),
            };
    }
    Ok(m)
}

fn mask_char<T: Copy + Into<u32>>(m: u32, table: &[T], alpha: &str) -> D<char> {
    table
        .iter()
        .position(|&t| t.into() == m)
        .map(|i| alpha.chars().nth(i).unwrap())
        .ok_or_else(|| format!("no character has pattern {m:b}"))
}

fn dstr(d: &[u8]) -> String {
    d.iter().map(|x| (b'0' + x) as char).collect()
}

/// Strict decoder: the data characters, with check characters verified and removed
/// (retail: 12/7/11 digits; ITF: all encoded digits, including an appended one).
pub fn decode(sym: Sym, row: &[u8]) -> D<String> {
    if let Some(x) = row.iter().find(|&&x| x > 1) {
        return Err(format!("module value {x}"));
    }
    let mut c = Cur { row, at: 0 };
    match sym {
        Sym::Ean13 | Sym::Bookland | Sym::Jan | Sym::Upca | Sym::Ean8 => {
            let half = if sym == Sym::Ean8 { 4 } else { 6 };
            c.expect("101")?;
            let mut par = 0;
            let mut d = vec![];
            for _ in 0..half {
                let (x, s) = ean_digit(&mut c)?;
                if s == 2 {
                    return Err("right-hand digit on the left".into());
                }
                par = par << 1 | s;
                d.push(x);
            }
            c.expect("01010")?;
            for _ in 0..half {
                let (x, s) = ean_digit(&mut c)?;
                if s != 2 {
                    return Err("left-hand digit on the right".into());
                }
                d.push(x);
            }
            c.expect("101")?;
            c.end()?;
            if half == 6 && sym != Sym::Upca {
                let f = EAN13_FIRST
                    .iter()
                    .position(|&p| p == par)
                    .ok_or("no first digit has this parity sequence")?;
                d.insert(0, f as u8);
            } else if par != 0 {
                return Err("even parity in a symbol that has none".into());
            }
            let k = d.pop().unwrap();
            if k != mod10(&d) {
                return Err(format!("check digit {k}, should be {}", mod10(&d)));
            }
            Ok(dstr(&d))
        }
        Sym::Supp => {
            c.expect("1011")?;
            let n = match row.len() {
                20 => 2,
                47 => 5,
                n => return Err(format!("supplement of {n} modules")),
            };
            let mut d = vec![];
            let mut par = vec![];
            for i in 0..n {
                if i > 0 {
                    c.expect("01")?;
                }
                let (x, s) = ean_digit(&mut c)?;
                if s == 2 {
                    return Err("right-hand digit in a supplement".into());
                }
                d.push(x);
                par.push(s == 1);
            }
            c.end()?;
            if par != supp_parity(&d) {
                return Err("wrong parity".into());
            }
            Ok(dstr(&d))
        }
        Sym::Code39 | Sym::Code39Check => {
            if narrow_wide(&mut c, 9, 2)? != CODE39_STAR as u32 {
                return Err("no start".into());
            }
            let mut v = vec![];
            loop {
                c.expect("0")?;
                let m = narrow_wide(&mut c, 9, 2)?;
                if m == CODE39_STAR as u32 {
                    break;
                }
                v.push(mask_char(m, &CODE39_MASK, CODE39_ALPHABET)?);
            }
            c.end()?;
            if sym == Sym::Code39Check {
                let k = v.pop().ok_or("no check character")?;
                let s: usize = v.iter().map(|&x| index_in(CODE39_ALPHABET, x)).sum();
                if index_in(CODE39_ALPHABET, k) != s % 43 {
                    return Err("wrong check character".into());
                }
            }
            Ok(v.into_iter().collect())
        }
        Sym::Code93 => {
            let mut v: Vec<usize> = vec![];
            let mut first = true;
            loop {
                let m = c.take(9)?.iter().fold(0u16, |a, &b| a << 1 | b as u16);
                if m == CODE93_STAR {
                    if first {
                        first = false;
                        continue;
                    }
                    break;
                }
                if first {
                    return Err("no start".into());
                }
                v.push(CODE93_MASK.iter().position(|&t| t == m).ok_or("no such character")?);
            }
            c.expect("1")?;
            c.end()?;
            let k = v.pop().ok_or("no K")?;
            if weighted(&v, 15, 47) != k {
                return Err("wrong K".into());
            }
            let k = v.pop().ok_or("no C")?;
            if weighted(&v, 20, 47) != k {
                return Err("wrong C".into());
            }
            let a: Vec<char> = CODE93_ALPHABET.chars().collect();
            Ok(v.iter().map(|&i| a[i]).collect())
        }
        Sym::Code11 | Sym::Usd8 => {
            if narrow_wide(&mut c, 5, 2)? != CODE11_STAR as u32 {
                return Err("no start".into());
            }
            let mut v: Vec<usize> = vec![];
            loop {
                c.expect("0")?;
                let m = narrow_wide(&mut c, 5, 2)?;
                if m == CODE11_STAR as u32 {
                    break;
                }
                v.push(index_in(CODE11_ALPHABET, mask_char(m, &CODE11_MASK, CODE11_ALPHABET)?));
            }
            c.end()?;
            // More than ten data characters: two check characters.
            if v.len() > 11 {
                let k = v.pop().unwrap();
                if weighted(&v, 9, 11) != k {
                    return Err("wrong K".into());
                }
            }
            let k = v.pop().ok_or("no C")?;
            if weighted(&v, 10, 11) != k {
                return Err("wrong C".into());
            }
            let a: Vec<char> = CODE11_ALPHABET.chars().collect();
            Ok(v.iter().map(|&i| a[i]).collect())
        }
        Sym::Codabar => {
            let mut s = String::new();
            loop {
                let m = narrow_wide(&mut c, 7, 2)?;
                s.push(mask_char(m, &CODABAR_MASK, CODABAR_ALPHABET)?);
                if c.left() == 0 {
                    return Ok(s);
                }
                c.expect("0")?;
            }
        }
        Sym::Itf => {
            c.expect("1010")?;
            let mut d = vec![];
            while c.left() > 4 {
                let mut b = [false; 5];
                let mut s = [false; 5];
                for i in 0..5 {
                    for (t, col) in [(&mut b, 1), (&mut s, 0)] {
                        t[i] = match c.run(col)? {
                            1 => false,
                            3 => true,
                            n => return Err(format!("element of {n} modules")),
                        };
                    }
                }
                for t in [b, s] {
                    d.push((0..10).find(|&x| two_of_five(x) == t).ok_or("no such digit")?);
                }
            }
            c.expect("1101")?;
            c.end()?;
            Ok(dstr(&d))
        }
        Sym::Stf => {
            c.expect("11011010")?;
            let mut d = vec![];
            while c.left() > 8 {
                let mut b = [false; 5];
                for t in b.iter_mut() {
                    *t = match c.run(1)? {
                        1 => false,
                        3 => true,
                        n => return Err(format!("bar of {n} modules")),
                    };
                    c.expect("0")?;
                }
                d.push((0..10).find(|&x| two_of_five(x) == b).ok_or("no such digit")?);
            }
            c.expect("11010110")?;
            c.end()?;
            Ok(dstr(&d))
        }
        Sym::Code128 => {
            let syms = c128_decode_symbols(row)?;
            c128_text(&syms)
        }
    }
}

/// Symbol values (start first), check verified and removed.
pub fn c128_decode_symbols(row: &[u8]) -> D<Vec<u8>> {
    let mut c = Cur { row, at: 0 };
    let mut v = vec![];
    while c.left() > 13 {
        let g = c.take(11)?;
        let mut g = Cur { row: g, at: 0 };
        let mut w = 0;
        for i in 0..6 {
            w = w * 10 + g.run(if i % 2 == 0 { 1 } else { 0 })? as u32;
        }
        g.end()?;
        v.push(CODE128_WIDTHS.iter().position(|&x| x == w).ok_or_else(|| format!("no symbol has widths {w}"))? as u8);
    }
    let mut w = 0;
    for i in 0..7 {
        w = w * 10 + c.run(if i % 2 == 0 { 1 } else { 0 })? as u32;
    }
    c.end()?;
    if w != CODE128_STOP {
        return Err(format!("stop has widths {w}"));
    }
    let k = v.pop().ok_or("no check symbol")?;
    if v.is_empty() || v[0] < 103 {
        return Err("no start symbol".into());
    }
    if c128_check(&v) != k {
        return Err(format!("check value {k}, should be {}", c128_check(&v)));
    }
    Ok(v)
}

/// Text, in this library's notation, of symbol values.
pub fn c128_text(v: &[u8]) -> D<String> {
    let mut set = [Set::A, Set::B, Set::C][(v[0] - 103) as usize];
    let mut s = String::new();
    s.push([MARK_A, MARK_B, MARK_C][set as usize]);
    for &x in &v[1..] {
        match (set, x) {
            (_, 103..=255) => return Err("start symbol inside the data".into()),
            (_, 102) => s.push(FNC1),
            (Set::C, 0..=99) => s.push_str(&format!("{x:02}")),
            (Set::A | Set::B, 99) => {
                s.push(MARK_C);
                set = Set::C
            }
            (Set::A | Set::C, 100) => {
                s.push(MARK_B);
                set = Set::B
            }
            (Set::B | Set::C, 101) => {
                s.push(MARK_A);
                set = Set::A
            }
            (Set::A, 101) | (Set::B, 100) => s.push(FNC4),
            (_, 96) => s.push(FNC3),
            (_, 97) => s.push(FNC2),
            (_, 98) => s.push(SHIFT),
            (Set::A, 64..=95) => s.push((x - 64) as char),
            (_, _) => s.push((x + 32) as char),
        }
    }
    Ok(s)
}

/// What `decode` must give back for accepted text.
pub fn decoded_form(sym: Sym, text: &str) -> String {
    match sym {
        _ if sym.retail_len().is_some() => text[..sym.retail_len().unwrap()].to_string(),
        Sym::Itf => {
            let mut d = digits(text).unwrap();
            if d.len() % 2 == 1 {
                d.push(mod10(&d));
            }
            dstr(&d)
        }
        // DEL has two spellings
        Sym::Code128 => text.replace(DIVIDE, "\u{7F}"),
        _ => text.to_string(),
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn round_trip() {
        for (s, t) in [
            (Sym::Ean13, "978345612345"),
            (Sym::Ean8, "5512345"),
            (Sym::Upca, "72527273070"),
            (Sym::Supp, "34"),
            (Sym::Supp, "51234"),
            (Sym::Code39, "TEST8052"),
            (Sym::Code39Check, "983RD512"),
            (Sym::Code93, "1111111111111111111111"),
            (Sym::Code11, "1234-5678-4321"),
            (Sym::Codabar, "A40156B+C$D/:."),
            (Sym::Itf, "1234567"),
            (Sym::Stf, "1234567"),
            (Sym::Code128, "\u{181}xyZ\u{C0}199!*1\u{106}\u{179}1299"),
        ] {
            assert_eq!(accept(s, t), Ok(()));
            assert_eq!(decode(s, &encode(s, t)).unwrap(), decoded_form(s, t), "{s:?}");
        }
    }
}
