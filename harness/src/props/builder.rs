//! C27: defaults and builder histories.

use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::*;
use crate::real::{self, Fmt, ImgCfg, SvgCfg, FMTS};
use barcoders::generators::{ascii::ASCII, image as im, json::JSON, svg};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    Xdim(u32),
    Foreground(Rgba),
    Background(Rgba),
    Xmlns(String),
    Clone,
    Generate,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Build {
    pub height: u32,
    pub calls: Vec<Call>,
    pub row: Vec<u8>,
}

pub struct Builder;

const BLACK: Rgba = [0, 0, 0, 255];
const WHITE: Rgba = [255; 4];

impl Prop for Builder {
    type Case = Build;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "a height, a history of 0..10 SVG builder calls (xdim, foreground, background, xmlns, clone, generate) with arbitrary values, and a row; after every call all settings are compared with a last-write-wins model and the output with that of the same settings written as fields; the defaults of all other generators are checked with the same height and row. Non-trivial: at least two builder calls of different kinds."
    }
    fn cases(&self) -> (u64, u64) {
        (400_000, 6_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Build> {
        let call = prop_oneof![
            3 => gen::any_u32(cx).prop_map(Call::Xdim),
            3 => gen::colour().prop_map(Call::Foreground),
            3 => gen::colour().prop_map(Call::Background),
            3 => gen::namespace(cx).prop_map(Call::Xmlns),
            1 => Just(Call::Clone),
            1 => Just(Call::Generate),
        ];
        let h = prop_oneof![3 => gen::any_u32(cx), 3 => 0u32..40];
        boxed((h, proptest::collection::vec(call, 0..=10), gen::row(cx, 30)).prop_map(|(height, calls, row)| Build { height, calls, row }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Build> {
        (0..=260).map(|height| Build { height, calls: vec![], row: vec![1, 0, 1, 1] }).collect()
    }
    fn smaller(&self, c: &Build) -> Vec<Build> {
        (0..c.calls.len())
            .map(|i| {
                let mut d = c.clone();
                d.calls.remove(i);
                d
            })
            .chain(super::text::smaller_row(&c.row).into_iter().map(|row| Build { row, ..c.clone() }))
            .collect()
    }
    fn check(&self, _cx: &Cx, c: &Build, st: &mut Stats) -> Verdict {
        let kind = |c: &Call| std::mem::discriminant(c);
        st.nontrivial = c.calls.iter().any(|x| kind(x) != kind(&c.calls[0]));
        st.class_if(c.calls.is_empty(), "defaults only");
        let row = &c.row[..];
        let mut want = SvgCfg { height: c.height, xdim: 1, fg: BLACK, bg: WHITE, xmlns: None };
        let mut s = real::guard("SVG::new", || svg::SVG::new(c.height))?;
        let mut step = 0;
        loop {
            let got = SvgCfg { height: s.height, xdim: s.xdim, fg: s.foreground.rgba, bg: s.background.rgba, xmlns: s.xmlns.clone() };
            if got != want {
                fail!("after {step} calls the SVG settings are {got:?}, should be {want:?}");
            }
            let a = real::guard("SVG generate", || s.generate(row))?;
            let b = real::guard("SVG generate", || want.svg().generate(row))?;
            if a != b {
                fail!("after {step} calls the SVG output differs from that of the same fields {want:?}");
            }
            let svg = read_svg(&a.map_err(|e| Fail(format!("SVG fails with {e:?}")))?).map_err(Fail)?;
            check_svg_geometry(row, want.height, want.xdim, want.fg, want.bg, &svg).map_err(Fail)?;
            if svg.xmlns != want.xmlns {
                fail!("after {step} calls the SVG has xmlns {:?}, should be {:?}", svg.xmlns, want.xmlns);
            }
            let Some(call) = c.calls.get(step) else { break };
            step += 1;
            s = real::guard("a builder call", || match call.clone() {
                Call::Xdim(x) => s.xdim(x),
                Call::Foreground(k) => s.foreground(svg::Color::new(k)),
                Call::Background(k) => s.background(svg::Color::new(k)),
                Call::Xmlns(n) => s.xmlns(n),
                Call::Clone => s.clone(),
                Call::Generate => {
                    let _ = s.generate(row);
                    s
                }
            })?;
            match call {
                Call::Xdim(x) => want.xdim = *x,
                Call::Foreground(k) => want.fg = *k,
                Call::Background(k) => want.bg = *k,
                Call::Xmlns(n) => want.xmlns = Some(n.clone()),
                _ => {}
            }
        }
        for (n, k, v) in [("black", svg::Color::black().rgba, BLACK), ("white", svg::Color::white().rgba, WHITE)] {
            if k != v {
                fail!("svg::Color::{n}() is {k:?}");
            }
        }

        // ASCII and JSON
        for (n, h, x) in [
            ("ASCII::new", ASCII::new().height, ASCII::new().xdim),
            ("ASCII::default", ASCII::default().height, ASCII::default().xdim),
            ("JSON::new", JSON::new().height, JSON::new().xdim),
            ("JSON::default", JSON::default().height, JSON::default().xdim),
        ] {
            if (h, x) != (10, 1) {
                fail!("{n}() has height {h} and xdim {x}");
            }
        }
        let a = real::guard("ASCII generate", || ASCII::new().generate(row))?.map_err(|e| Fail(format!("{e:?}")))?;
        check_ascii(row, 10, 1, &a).map_err(Fail)?;
        let j = real::guard("JSON generate", || JSON::new().generate(row))?.map_err(|e| Fail(format!("{e:?}")))?;
        check_json(row, 10, 1, &j).map_err(Fail)?;

        // images
        let height = c.height.min(40);
        for fmt in FMTS {
            let made = match fmt {
                Fmt::Gif => im::Image::gif(height),
                Fmt::Png => im::Image::png(height),
                Fmt::Webp => im::Image::webp(height),
                Fmt::Buf => im::Image::image_buffer(height),
            };
            let tall = match fmt {
                Fmt::Gif => im::Image::gif(c.height),
                Fmt::Png => im::Image::png(c.height),
                Fmt::Webp => im::Image::webp(c.height),
                Fmt::Buf => im::Image::image_buffer(c.height),
            };
            let (is, h, x, r) = match tall {
                im::Image::GIF { height, xdim, rotation, .. } => (Fmt::Gif, height, xdim, rotation),
                im::Image::PNG { height, xdim, rotation, .. } => (Fmt::Png, height, xdim, rotation),
                im::Image::WEBP { height, xdim, rotation, .. } => (Fmt::Webp, height, xdim, rotation),
                im::Image::ImageBuffer { height, xdim, rotation, .. } => (Fmt::Buf, height, xdim, rotation),
            };
            if is != fmt || h != c.height || x != 1 || !matches!(r, im::Rotation::Zero) {
                fail!("the {fmt:?} constructor makes {tall:?} for height {}", c.height);
            }
            let cfg = ImgCfg { fmt, height, xdim: 1, rot: Rot::R0, fg: BLACK, bg: WHITE };
            let b = real::guard("generate_buffer", || made.generate_buffer(row))?.map_err(|e| Fail(format!("{e:?}")))?;
            Raster { row, height, xdim: 1, fg: BLACK, bg: WHITE, rot: Rot::R0 }
                .compare(b.width(), b.height(), b.as_raw(), |a, b| a == b)
                .map_err(|e| Fail(format!("{fmt:?} with default settings: {e}")))?;
            let f = real::guard("generate", || made.generate(row).map_err(real::err_bit))?;
            if f != real::file(&cfg, row)? {
                fail!("{fmt:?} with default settings gives other bytes than black on white, x-dimension 1, unrotated");
            }
        }
        for (n, k, v) in [("black", im::Color::black(), BLACK), ("white", im::Color::white(), WHITE)] {
            let i = im::Image::ImageBuffer { height: 1, xdim: 1, rotation: im::Rotation::Zero, foreground: k, background: im::Color::new([1, 2, 3, 4]) };
            let b = real::guard("generate_buffer", || i.generate_buffer([1u8]))?.map_err(|e| Fail(format!("{e:?}")))?;
            if b.as_raw()[..] != v {
                fail!("image Color::{n}() is {:?}", b.as_raw());
            }
        }
        Ok(())
    }
}
