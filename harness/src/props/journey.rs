//! C24: text, encoding, rendering, reading, decoding.

use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::*;
use crate::model::sym::{self, Sym};
use crate::real::{self, Fmt, ImgCfg, SvgCfg};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Out {
    Ascii,
    Json,
    Svg,
    Image(Fmt),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Trip {
    pub sym: Sym,
    pub text: String,
    pub out: Out,
    pub height: u32,
    pub xdim: u32,
    pub rot: Rot,
    pub fg: Rgba,
    pub bg: Rgba,
}

pub struct Journey;

/// Codabar characters whose pattern is a known finding are left out here (C11 has
/// them); a replacement keeps the length.
pub fn standard_codabar(cx: &Cx, s: Sym, t: String) -> String {
    if s != Sym::Codabar {
        return t;
    }
    let odd: String = cx.known.iter().filter(|k| k.property == "C11").filter_map(|k| k.key.chars().next()).collect();
    t.chars().map(|c| if odd.contains(c) { 'A' } else { c }).collect()
}

impl Prop for Journey {
    type Case = Trip;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "symbology x accepted data x generator (ASCII, JSON, SVG, buffer, GIF, PNG, WebP) x height 1.. x x-dimension 1.. x rotation x colours that differ in red, green or blue; fixed: data of full length, Code 128 up to 12000 characters. The output is read back to modules and the modules decoded to text. Codabar characters listed as known findings of C11 are replaced. Non-trivial: x-dimension or height over 1, or a rotation, or colours other than black on white."
    }
    fn cases(&self) -> (u64, u64) {
        (800_000, 12_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Trip> {
        let outs = vec![
            Out::Ascii,
            Out::Json,
            Out::Svg,
            Out::Image(Fmt::Buf),
            Out::Image(Fmt::Gif),
            Out::Image(Fmt::Png),
            Out::Image(Fmt::Webp),
        ];
        let text = prop_oneof![6 => gen::sym_text(cx, true), 1 => gen::sym_text(cx, false)];
        let (h, x) = (gen::size(cx, 20).prop_map(|x| x.max(1) as u32), gen::size(cx, 9).prop_map(|x| x.max(1) as u32));
        let cx = cx.clone();
        boxed((text, select(outs), h, x, gen::rot(), gen::colours()).prop_map(move |((sym, t), out, height, xdim, rot, (mut fg, mut bg))| {
            let text = standard_codabar(&cx, sym, t);
            // distinguishable after any of the formats
            if fg[..3] == bg[..3] {
                fg[0] ^= 0x40;
            }
            if !matches!(out, Out::Image(Fmt::Buf | Fmt::Png | Fmt::Webp)) {
                fg[3] = fg[3].max(128);
                bg[3] = 255;
            }
            // long symbols stay small
            let (height, xdim) = if text.len() > 60 { (height.min(3), xdim.min(2)) } else { (height, xdim) };
            Trip { sym, text, out, height, xdim, rot, fg, bg }
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Trip> {
        let mut v = vec![];
        for (sym, text) in [
            (Sym::Ean13, "978345612345"),
            (Sym::Ean8, "5512345"),
            (Sym::Upca, "72527273070"),
            (Sym::Supp, "34"),
            (Sym::Supp, "51234"),
            (Sym::Code39Check, "983RD512"),
            (Sym::Code93, "1111111111111111111111"),
            (Sym::Code11, "1234-5678-4321"),
            (Sym::Codabar, "A40156D"),
            (Sym::Itf, "1234567"),
            (Sym::Stf, "1234567"),
            (Sym::Code128, "\u{181}xyZ\u{C0}199!*1\u{106}\u{179}1299"),
        ] {
            for out in [Out::Ascii, Out::Json, Out::Svg, Out::Image(Fmt::Buf), Out::Image(Fmt::Gif), Out::Image(Fmt::Png), Out::Image(Fmt::Webp)] {
                for rot in ROTS {
                    v.push(Trip { sym, text: text.into(), out, height: 3, xdim: 2, rot, fg: [0, 0, 0, 255], bg: [255; 4] });
                }
            }
        }
        let digits = |n: usize| gen::long_row(4 * n).chunks(4).map(|c| char::from(b'0' + c.iter().fold(0, |t, b| 2 * t + b) % 10)).collect::<String>();
        let mut long: Vec<(Sym, String)> = [Sym::Code39, Sym::Code39Check, Sym::Code93, Sym::Code11, Sym::Codabar, Sym::Itf, Sym::Stf]
            .into_iter()
            .map(|s| (s, digits(256)))
            .collect();
        for n in [100, 1000, 1485, 1486, 5900, 5954, 6000, 12_000] {
            long.push((Sym::Code128, format!("\u{C0}{}", digits(n))));
            long.push((Sym::Code128, format!("\u{181}{}\u{106}{}", digits(n / 2), digits(n / 4 * 4))));
        }
        for (i, (sym, text)) in long.into_iter().enumerate() {
            let modules = 15 * text.len() + 50;
            for (j, out) in [Out::Ascii, Out::Json, Out::Svg, Out::Image(Fmt::Buf), Out::Image(Fmt::Gif), Out::Image(Fmt::Png), Out::Image(Fmt::Webp)]
                .into_iter()
                .enumerate()
            {
                if out == Out::Image(Fmt::Gif) && modules > 65_535 || out == Out::Image(Fmt::Webp) && modules > 16_383 {
                    continue;
                }
                v.push(Trip { sym, text: text.clone(), out, height: 1, xdim: 1, rot: ROTS[(i + j) % 4], fg: [0, 0, 0, 255], bg: [255; 4] });
            }
        }
        v
    }
    fn smaller(&self, c: &Trip) -> Vec<Trip> {
        let plain = c.sym.alphabet().chars().next().unwrap_or('0');
        let mut v: Vec<Trip> = gen::smaller_text(&c.text, plain)
            .into_iter()
            .filter(|t| sym::accept(c.sym, t).is_ok())
            .map(|text| Trip { text, ..c.clone() })
            .collect();
        if (c.fg, c.bg) != ([0, 0, 0, 255], [255; 4]) {
            v.push(Trip { fg: [0, 0, 0, 255], bg: [255; 4], ..c.clone() });
        }
        v
    }
    fn check(&self, _cx: &Cx, c: &Trip, st: &mut Stats) -> Verdict {
        st.nontrivial = c.xdim > 1 || c.height > 1 || c.rot != Rot::R0 || (c.fg, c.bg) != ([0, 0, 0, 255], [255; 4]);
        st.class(match c.out {
            Out::Ascii => "ASCII",
            Out::Json => "JSON",
            Out::Svg => "SVG",
            Out::Image(Fmt::Buf) => "buffer",
            Out::Image(Fmt::Gif) => "GIF",
            Out::Image(Fmt::Png) => "PNG",
            Out::Image(Fmt::Webp) => "WebP",
        });
        st.class(c.sym.name());
        let row = real::must_encode(c.sym, &c.text)?;
        let read = match c.out {
            Out::Ascii => read_ascii(c.xdim as usize, &real::ascii(&row, c.height as usize, c.xdim as usize)?),
            Out::Json => read_json(&real::json(&row, c.height as usize, c.xdim as usize)?).map(|j| j.2),
            Out::Svg => {
                let k = SvgCfg { height: c.height, xdim: c.xdim, fg: c.fg, bg: c.bg, xmlns: None };
                read_svg(&real::svg(&k, &row)?).and_then(|s| read_svg_row(&s, c.xdim, c.fg, c.bg))
            }
            Out::Image(fmt) => {
                let k = ImgCfg { fmt, height: c.height, xdim: c.xdim, rot: c.rot, fg: c.fg, bg: c.bg };
                let p = if fmt == Fmt::Buf {
                    real::buffer(&k, &row)?.map_err(|e| Fail(format!("buffer: {}", real::bit_name(e))))?
                } else {
                    let b = real::file(&k, &row)?.map_err(|e| Fail(format!("{fmt:?}: {}", real::bit_name(e))))?;
                    real::decode_file(fmt, &b)?
                };
                read_raster(p.w, p.h, &p.px, c.xdim, c.rot, |q| {
                    if q[..3] == c.fg[..3] {
                        Some(true)
                    } else if q[..3] == c.bg[..3] {
                        Some(false)
                    } else {
                        None
                    }
                })
            }
        };
        let read = read.map_err(|e| Fail(format!("{:?} of {} {:?} cannot be read: {e}", c.out, c.sym.name(), c.text)))?;
        if read != row {
            fail!("{:?} of {} {:?}: {}", c.out, c.sym.name(), c.text, row_diff(&row, &read));
        }
        match sym::decode(c.sym, &read) {
            Ok(d) if d == sym::decoded_form(c.sym, &c.text) => Ok(()),
            Ok(d) => fail!("{} {:?} through {:?} is read as {d:?}", c.sym.name(), c.text, c.out),
            Err(e) => fail!("{} {:?} through {:?} cannot be decoded: {e}", c.sym.name(), c.text, c.out),
        }
    }
}
