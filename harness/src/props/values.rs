//! C30: copies, errors, debug texts and the public tables.

use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::{row_str, Rgba, Rot};
use crate::model::sym::{self, Sym, E_CHAR, E_CHECK, E_LEN};
use crate::model::tables::EAN13_FIRST;
use crate::real::{self, guard, Fmt, ImgCfg, SvgCfg, E_GEN, FMTS};
use barcoders::error::Error;
use barcoders::generators::{ascii::ASCII, image as im, json::JSON, svg};
use barcoders::sym::{ean13, upca};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// The settings of a generator.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Made {
    Ascii(u32, u32),
    Json(u64, u64),
    Svg(SvgCfg),
    Image(ImgCfg),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Case {
    /// a number's row from the public tables
    Tables(Sym, String),
    /// a generator, what its copy is changed to, a row
    Copied(Made, Made, Vec<u8>),
    /// texts given to constructors; what they answer is compared with one another
    Errors(Vec<(Sym, String)>),
}

pub struct Values;

/// Every way of showing a value for debugging.
fn shown<T: Debug>(what: &str, t: &T) -> Result<(), Fail> {
    guard(&format!("showing {what}"), || (format!("{t:?}"), format!("{t:#?}"), format!("{t:7.2?}"), format!("{t:#x?}"))).map(|_| ())
}

const RETAIL: [Sym; 4] = [Sym::Ean13, Sym::Bookland, Sym::Jan, Sym::Upca];

fn from_tables(s: Sym, text: &str) -> Vec<u8> {
    let mut d = sym::digits(text).expect("digits");
    let n = s.retail_len().expect("retail");
    d.truncate(n);
    d.push(sym::mod10(&d));
    let mut v: Vec<u8> = vec![];
    if s == Sym::Upca {
        let t = upca::ENCODINGS;
        v.extend(upca::LEFT_GUARD);
        d[..6].iter().for_each(|k| v.extend(t[0][*k as usize]));
        v.extend(upca::MIDDLE_GUARD);
        d[6..].iter().for_each(|k| v.extend(t[1][*k as usize]));
        v.extend(upca::RIGHT_GUARD);
    } else {
        let t = ean13::ENCODINGS;
        let parity = EAN13_FIRST[d[0] as usize];
        v.extend(ean13::LEFT_GUARD);
        d[1..7].iter().enumerate().for_each(|(i, k)| v.extend(t[usize::from(parity >> (5 - i) & 1)][*k as usize]));
        v.extend(ean13::MIDDLE_GUARD);
        d[7..].iter().for_each(|k| v.extend(t[2][*k as usize]));
        v.extend(ean13::RIGHT_GUARD);
    }
    v
}

/// What comes out of a generator; large pictures are not drawn.
#[derive(PartialEq)]
struct Out(Vec<Result<Vec<u8>, u8>>);

enum Gen {
    Ascii(ASCII),
    Json(JSON),
    Svg(svg::SVG),
    Image(im::Image),
}

fn image_fields(i: &mut im::Image) -> (&mut u32, &mut u32, &mut im::Rotation, &mut im::Color, &mut im::Color) {
    match i {
        im::Image::GIF { height, xdim, rotation, foreground, background }
        | im::Image::PNG { height, xdim, rotation, foreground, background }
        | im::Image::WEBP { height, xdim, rotation, foreground, background }
        | im::Image::ImageBuffer { height, xdim, rotation, foreground, background } => (height, xdim, rotation, foreground, background),
    }
}

impl Gen {
    fn of(m: &Made) -> Gen {
        match m {
            Made::Ascii(h, x) => Gen::Ascii(ASCII { height: *h as usize, xdim: *x as usize }),
            Made::Json(h, x) => Gen::Json(JSON { height: *h as usize, xdim: *x as usize }),
            Made::Svg(c) => Gen::Svg(c.svg()),
            Made::Image(c) => Gen::Image(c.image()),
        }
    }
    /// A copy, by cloning where the type allows no other way.
    fn copied(&self) -> Gen {
        match self {
            Gen::Ascii(a) => Gen::Ascii(*a),
            Gen::Json(a) => Gen::Json(*a),
            Gen::Svg(a) => Gen::Svg(a.clone()),
            Gen::Image(a) => Gen::Image(*a),
        }
    }
    #[allow(clippy::clone_on_copy)]
    fn cloned(&self) -> Gen {
        match self {
            Gen::Ascii(a) => Gen::Ascii(a.clone()),
            Gen::Json(a) => Gen::Json(a.clone()),
            Gen::Svg(a) => Gen::Svg(a.clone()),
            Gen::Image(a) => Gen::Image(a.clone()),
        }
    }
    fn clone_into(&self, other: &mut Gen) {
        match (self, other) {
            (Gen::Ascii(a), Gen::Ascii(b)) => b.clone_from(a),
            (Gen::Json(a), Gen::Json(b)) => b.clone_from(a),
            (Gen::Svg(a), Gen::Svg(b)) => b.clone_from(a),
            (Gen::Image(a), Gen::Image(b)) => b.clone_from(a),
            (a, b) => *b = a.cloned(),
        }
    }
    /// Sets the fields to those of other settings of the kind.
    fn change(&mut self, m: &Made) {
        match (self, m) {
            (Gen::Ascii(a), Made::Ascii(h, x)) => (a.height, a.xdim) = (*h as usize, *x as usize),
            (Gen::Json(a), Made::Json(h, x)) => (a.height, a.xdim) = (*h as usize, *x as usize),
            (Gen::Svg(a), Made::Svg(c)) => {
                let b = c.svg();
                (a.height, a.xdim, a.foreground, a.background) = (b.height, b.xdim, b.foreground, b.background);
                a.xmlns = b.xmlns;
            }
            (Gen::Image(a), Made::Image(c)) => {
                let mut b = c.image();
                if std::mem::discriminant(a) == std::mem::discriminant(&b) {
                    let (from, to) = (image_fields(&mut b), image_fields(a));
                    (*to.0, *to.1, *to.2, *to.3, *to.4) = (*from.0, *from.1, *from.2, *from.3, *from.4);
                } else {
                    *a = b;
                }
            }
            (a, m) => *a = Gen::of(m),
        }
    }
    fn out(&self, row: &[u8]) -> Result<Out, Fail> {
        let text = |r: Result<String, Error>| Out(vec![r.map(String::into_bytes).map_err(real::err_bit)]);
        guard("generate", || match self {
            Gen::Ascii(a) => text(a.generate(row)),
            Gen::Json(a) => text(a.generate(row)),
            Gen::Svg(a) => text(a.generate(row)),
            Gen::Image(a) => Out(vec![
                a.generate(row).map_err(real::err_bit),
                a.generate_buffer(row)
                    .map(|b| [&b.width().to_be_bytes()[..], &b.height().to_be_bytes(), b.as_raw()].concat())
                    .map_err(real::err_bit),
            ]),
        })
    }
    fn show(&self) -> Result<(), Fail> {
        match self {
            Gen::Ascii(a) => shown("an ASCII generator", a),
            Gen::Json(a) => shown("a JSON generator", a),
            Gen::Svg(a) => {
                shown("an SVG generator", a)?;
                shown("an SVG colour", &a.foreground)
            }
            Gen::Image(a) => {
                shown("an image generator", a)?;
                let mut a = *a;
                let f = image_fields(&mut a);
                shown("a rotation", f.2)?;
                shown("an image colour", f.3)
            }
        }
    }
}

fn made(cx: &Cx) -> BoxedStrategy<Made> {
    let img = (select(&FMTS[..]), 0u32..14, 0u32..9, gen::rot(), gen::colours()).prop_map(|(fmt, height, xdim, rot, (fg, bg))| ImgCfg { fmt, height, xdim, rot, fg, bg });
    let svg = (gen::any_u32(cx), gen::any_u32(cx), gen::colours(), proptest::option::of(gen::namespace(cx)))
        .prop_map(|(height, xdim, (fg, bg), xmlns)| SvgCfg { height, xdim, fg, bg, xmlns });
    boxed(prop_oneof![
        2 => (0u32..14, 0u32..9).prop_map(|(h, x)| Made::Ascii(h, x)),
        2 => (gen::any_u32(cx), gen::any_u32(cx)).prop_map(|(h, x)| Made::Json(h.into(), x.into())),
        3 => svg.prop_map(Made::Svg),
        4 => img.prop_map(Made::Image),
    ])
}

/// Pairs of settings of one kind.
fn two(cx: &Cx) -> BoxedStrategy<(Made, Made)> {
    let m = made(cx);
    boxed((m.clone(), proptest::collection::vec(m, 6)).prop_map(|(a, bs)| {
        let kind = std::mem::discriminant(&a);
        let b = bs.iter().find(|b| std::mem::discriminant(*b) == kind).unwrap_or(&bs[0]).clone();
        (a, b)
    }))
}

/// The words each message must have.
fn word(bit: u8) -> &'static str {
    match bit {
        E_LEN => "length",
        E_CHECK => "checksum",
        E_GEN => "generate",
        E_CHAR => "invalid",
        _ => "",
    }
}

fn errors(texts: &[(Sym, String)], st: &mut Stats) -> Verdict {
    let mut es = vec![];
    for (s, t) in texts {
        match guard("the constructor", || real::new_raw(*s, &t[..]))? {
            Err(e) => es.push(e),
            Ok(v) => {
                let before = guard("encode", || v.encode_raw())?;
                macro_rules! show {
                    ($($k:ident)*) => { match &v { $(real::Val::$k(x) => shown(s.name(), x)?,)* } };
                }
                show!(Ean13 Ean8 Upca Supp Code39 Code93 Code11 Code128 Codabar Tf);
                if guard("encode", || v.encode_raw())? != before {
                    fail!("{} {t:?} encodes otherwise after it was shown", s.name());
                }
            }
        }
    }
    st.nontrivial |= es.len() > 1;
    // one of a picture that cannot be
    let i = im::Image::ImageBuffer { height: 1, xdim: u32::MAX, rotation: im::Rotation::Zero, foreground: im::Color::black(), background: im::Color::white() };
    if let Err(e) = guard("generate_buffer", || i.generate_buffer([1u8, 0, 1]))? {
        es.push(e);
    }
    es.extend([Error::Character, Error::Length, Error::Generate, Error::Checksum]);
    let mut texts = vec![];
    for e in &es {
        shown("an error", e)?;
        let kind = real::err_bit(*e);
        let text = guard("showing an error", || e.to_string())?;
        if !text.to_lowercase().contains(word(kind)) {
            fail!("the message of {e:?} is {text:?}");
        }
        #[allow(clippy::clone_on_copy)]
        let c = e.clone();
        let b: Box<dyn std::error::Error + Send + Sync> = Box::new(*e);
        if b.to_string() != text || b.downcast_ref::<Error>() != Some(e) || c != *e || real::err_bit(c) != kind {
            fail!("{e:?} is another error when cloned or boxed: {c:?}, {b}");
        }
        let r: Result<(), Box<dyn std::error::Error>> = (|| Err(*e)?)();
        if r.err().map(|b| b.to_string()) != Some(text.clone()) {
            fail!("{e:?} is another error when passed on by ?");
        }
        texts.push((kind, text));
    }
    for (i, a) in es.iter().enumerate() {
        for (j, b) in es.iter().enumerate() {
            let same = texts[i].0 == texts[j].0;
            #[allow(clippy::nonminimal_bool)]
            if (a == b) != same || (a != b) == same {
                fail!("{a:?} == {b:?} is {}", a == b);
            }
            if (texts[i].1 == texts[j].1) != same {
                fail!("the messages of {a:?} and {b:?} are {:?} and {:?}", texts[i].1, texts[j].1);
            }
        }
    }
    Ok(())
}

impl Prop for Values {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "one of: a number of EAN-13 (also as Bookland, JAN) or UPC-A, whose row is put together from the public tables and compared with the encoded one; a generator's settings, others of the kind, and a row: outputs of the original, a copy, a clone and one cloned into, before and after showing them for debugging and changing every field of the copy; one to five texts near data of the symbologies, whose errors are compared with each other in pairs, cloned, boxed, and shown, and whose values are shown. Non-trivial: a number other than zeros; settings that differ; at least two errors."
    }
    fn cases(&self) -> (u64, u64) {
        (400_000, 6_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Case> {
        let per: Vec<BoxedStrategy<String>> = RETAIL.iter().map(|&s| gen::text(cx, s)).collect();
        let near: Vec<BoxedStrategy<String>> = sym::ALL.iter().map(|&s| boxed(prop_oneof![2 => gen::any_text(cx, s), 1 => gen::short_text(cx, s)])).collect();
        let any = boxed((0..sym::ALL.len()).prop_flat_map(move |i| near[i].clone().prop_map(move |t| (sym::ALL[i], t))));
        boxed(prop_oneof![
            3 => (0usize..4).prop_flat_map(move |i| per[i].clone().prop_map(move |t| Case::Tables(RETAIL[i], t))),
            3 => (two(cx), gen::row(cx, 40)).prop_map(|((a, b), row)| Case::Copied(a, b, row)),
            2 => proptest::collection::vec(any, 1..=5).prop_map(Case::Errors),
        ])
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Case> {
        let mut v = vec![Case::Errors(vec![])];
        for s in RETAIL {
            let n = s.retail_len().unwrap();
            // every digit in every position, under every first digit
            for first in '0'..='9' {
                for k in '0'..='9' {
                    let mut t = vec![k; n];
                    t[0] = first;
                    v.push(Case::Tables(s, t.into_iter().collect()));
                }
            }
        }
        let colour = |i: u32| -> Rgba { [i as u8, (i * 7) as u8, (i * 31) as u8, 255 - i as u8] };
        for i in 0..24u32 {
            let img = |i: u32| ImgCfg {
                fmt: [Fmt::Buf, Fmt::Png, Fmt::Gif, Fmt::Webp][i as usize % 4],
                height: i % 5 + 1,
                xdim: i % 3 + 1,
                rot: [Rot::R0, Rot::R90, Rot::R180, Rot::R270][i as usize / 4 % 4],
                fg: colour(i),
                bg: colour(i + 100),
            };
            v.push(Case::Copied(Made::Image(img(i)), Made::Image(img(i * 5 + 3)), vec![1, 0, 1, 1]));
        }
        v
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Tables(s, t) => gen::smaller_text(t, '0')
                .into_iter()
                .filter(|x| sym::accept(*s, x).is_ok())
                .map(|x| Case::Tables(*s, x))
                .collect(),
            Case::Copied(a, b, row) => super::text::smaller_row(row).into_iter().map(|r| Case::Copied(a.clone(), b.clone(), r)).collect(),
            Case::Errors(v) => (0..v.len())
                .map(|i| {
                    let mut w = v.clone();
                    w.remove(i);
                    Case::Errors(w)
                })
                .collect(),
        }
    }
    fn check(&self, _cx: &Cx, c: &Case, st: &mut Stats) -> Verdict {
        match c {
            Case::Tables(s, t) => {
                st.nontrivial = t.chars().any(|c| c != '0');
                st.class("tables");
                let (got, want) = (real::must_encode(*s, t)?, from_tables(*s, t));
                if got != want {
                    fail!("{} {t:?}: the public tables give {}, the row is {}", s.name(), row_str(&want), row_str(&got));
                }
                Ok(())
            }
            Case::Copied(a, b, row) => {
                st.nontrivial = a != b;
                st.class("copies");
                let original = Gen::of(a);
                let (mut copy, clone, mut into) = (original.copied(), original.cloned(), Gen::of(b));
                let was = Gen::of(b).out(row)?;
                let before = original.out(row)?;
                original.clone_into(&mut into);
                for (n, g) in [("copy", &copy), ("clone", &clone), ("target of clone_from", &into)] {
                    if g.out(row)? != before {
                        fail!("the {n} of {a:?} gives another output than it");
                    }
                    g.show()?;
                    if g.out(row)? != before {
                        fail!("the {n} of {a:?} gives another output after it was shown");
                    }
                }
                copy.change(b);
                if copy.out(row)? != was {
                    fail!("a copy of {a:?} changed to {b:?} gives another output than one made so");
                }
                drop(copy);
                for (n, g) in [("original", &original), ("clone", &clone), ("target of clone_from", &into)] {
                    if g.out(row)? != before {
                        fail!("the {n} of {a:?} gives another output after a copy was changed to {b:?}");
                    }
                }
                Ok(())
            }
            Case::Errors(v) => {
                st.class("errors");
                errors(v, st)
            }
        }
    }
}
