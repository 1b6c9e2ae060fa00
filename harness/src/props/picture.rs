//! C20-C23: images.

use super::text::smaller_row;
use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::*;
use crate::real::{self, Fmt, ImgCfg, Pic, E_GEN, FMTS};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Img {
    pub row: Vec<u8>,
    pub cfg: ImgCfg,
}

fn raster<'a>(row: &'a [u8], c: &ImgCfg) -> Raster<'a> {
    Raster { row, height: c.height, xdim: c.xdim, fg: c.fg, bg: c.bg, rot: c.rot }
}

/// Pictures of at most a few tens of thousands of pixels, zero sizes included.
fn img(cx: &Cx, min: u32) -> BoxedStrategy<Img> {
    let lo = min as usize;
    let size = |m: usize| boxed(gen::size(cx, m).prop_map(move |x| x.max(lo) as u32));
    let shapes = prop_oneof![
        240 => (gen::row(cx, 60), size(12), size(8)),
        72 => (gen::row(cx, 300), size(6), size(3)),
        12 => (round_row(cx), gen::round(260).prop_map(move |h| h.max(lo) as u32), size(2)),
        12 => (gen::row(cx, 300), size(40), size(12)),
        36 => (gen::row(cx, 8), size(120), size(40)),
        12 => (gen::row(cx, 3000), size(3), size(2)),
        12 => (gen::row(cx, 4), size(600), size(3)),
        12 => (gen::row(cx, 8), size(3), size(2000)),
        12 => (gen::row(cx, 3), size(4000), size(3)),
        12 => (gen::row(cx, 16_000), size(2), boxed(Just(lo as u32))),
        12 => gen::spread(40_000, 16_000).prop_map(|(row, x, h)| (row, h as u32, x as u32)),
        // wide and high at once
        1 => gen::spread(600_000, 16_000).prop_map(|(row, x, h)| (row, h as u32, x as u32)),
    ];
    // every format holds these
    let shapes = shapes.prop_filter("a side of more than 16384 pixels", |(row, h, x)| *h <= 16_384 && row.len() as u64 * *x as u64 <= 16_384);
    boxed((shapes, gen::rot(), gen::colours(), select(&FMTS[..]), gen::ties()).prop_map(move |((mut row, height, xdim), rot, (fg, bg), fmt, how)| {
        if row.len() < lo {
            row.push(1);
        }
        let (h, x) = gen::tie(row.len(), height as usize, xdim as usize, how, 30_000);
        // every format holds these too
        let (height, xdim) = if h >= lo && x >= lo && h.max(row.len() * x) <= 16_384 { (h as u32, x as u32) } else { (height, xdim) };
        Img { row, cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } }
    }))
}

/// A row whose length is a round number or next to one.
fn round_row(cx: &Cx) -> BoxedStrategy<Vec<u8>> {
    boxed((gen::row(cx, 130), gen::round(130)).prop_map(|(mut r, n)| {
        let k = r.len();
        r.extend((k..n).map(|i| (i % 3 == 0) as u8));
        r.truncate(n);
        r
    }))
}

fn smaller_img(c: &Img) -> Vec<Img> {
    smaller_row(&c.row)
        .into_iter()
        .filter(|r| !r.is_empty() || c.row.is_empty())
        .map(|row| Img { row, cfg: c.cfg })
        .chain(gen::smaller_number(c.cfg.height).into_iter().map(|height| Img { row: c.row.clone(), cfg: ImgCfg { height, ..c.cfg } }))
        .chain(gen::smaller_number(c.cfg.xdim).into_iter().map(|xdim| Img { row: c.row.clone(), cfg: ImgCfg { xdim, ..c.cfg } }))
        .collect()
}

fn interesting(c: &Img) -> bool {
    let k = &c.cfg;
    c.row.contains(&0) && c.row.contains(&1) && k.height > 0 && k.xdim > 0 && k.fg != k.bg
}

fn classes(c: &Img, st: &mut Stats) {
    let k = &c.cfg;
    st.class(match k.fmt {
        Fmt::Gif => "GIF",
        Fmt::Png => "PNG",
        Fmt::Webp => "WebP",
        Fmt::Buf => "buffer",
    });
    st.class(match k.rot {
        Rot::R0 => "unrotated",
        Rot::R90 => "rotated 90",
        Rot::R180 => "rotated 180",
        Rot::R270 => "rotated 270",
    });
    st.class_if(k.fg[3] != 255 || k.bg[3] != 255, "translucent colour");
    st.class_if(c.row.is_empty() || k.height == 0 || k.xdim == 0, "no pixels");
}

/// Grid of small fixed cases shared by the picture properties.
fn grid() -> Vec<Img> {
    let mut v = vec![];
    let rows: [&[u8]; 6] = [&[1], &[0], &[1, 0], &[0, 1, 1], &[1, 0, 0, 1, 0], &[1, 0, 1, 1, 0, 0, 0, 1]];
    for fmt in FMTS {
        for rot in ROTS {
            for row in rows {
                for (height, xdim) in [(1, 1), (1, 2), (2, 1), (3, 1), (2, 3), (5, 2), (9, 4)] {
                    for (fg, bg) in [
                        ([0, 0, 0, 255], [255, 255, 255, 255]),
                        ([255, 0, 0, 255], [0, 0, 255, 255]),
                        ([1, 2, 3, 4], [5, 6, 7, 8]),
                        ([10, 20, 30, 0], [40, 50, 60, 255]),
                        ([10, 20, 30, 128], [40, 50, 60, 0]),
                        ([9, 9, 9, 0], [8, 8, 8, 0]),
                    ] {
                        v.push(Img { row: row.to_vec(), cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } });
                    }
                }
            }
        }
    }
    v
}

/// Pictures of every row length up to `max` in widths up to `xmax`, square ones, and every height.
fn every_size(max: usize, xmax: usize) -> Vec<Img> {
    let mut v = vec![];
    let colours = [([0, 0, 0, 255], [255, 255, 255, 255]), ([10, 20, 30, 255], [40, 50, 60, 200]), ([7, 7, 7, 255], [8, 8, 8, 255])];
    for (i, (row, x, h)) in gen::sweep(max, xmax - 1, 39).into_iter().enumerate().filter(|c| !c.1 .0.is_empty()) {
        let (fg, bg) = colours[i % 3];
        v.push(Img { row, cfg: ImgCfg { fmt: FMTS[i / 3 % 4], height: h as u32 + 1, xdim: x as u32 + 1, rot: ROTS[i / 5 % 4], fg, bg } });
    }
    for n in 1..=max {
        let (fg, bg) = colours[n % 3];
        for (j, rot) in ROTS.into_iter().enumerate() {
            let fmt = FMTS[(n + j) % 4];
            v.push(Img { row: gen::long_row(n), cfg: ImgCfg { fmt, height: n as u32, xdim: 1, rot, fg, bg } });
            v.push(Img { row: vec![1, 0, 0, 1], cfg: ImgCfg { fmt, height: n as u32, xdim: 2, rot, fg, bg } });
            if n < 120 {
                v.push(Img { row: vec![1; n], cfg: ImgCfg { fmt, height: n as u32, xdim: 1, rot, fg, bg } });
            }
        }
    }
    for (row, n) in gen::cubes(40) {
        let (fg, bg) = colours[n % 3];
        for (j, rot) in ROTS.into_iter().enumerate() {
            v.push(Img { row: row.clone(), cfg: ImgCfg { fmt: FMTS[(n + j) % 4], height: n as u32, xdim: n as u32, rot, fg, bg } });
        }
    }
    v
}

/// Long, wide and high pictures.
fn big() -> Vec<Img> {
    let mut v = vec![];
    let (fg, bg) = ([10, 20, 30, 255], [40, 50, 60, 200]);
    for n in gen::LONG {
        for (i, (row, height, xdim)) in
            [(gen::long_row(n), 2, 1), (vec![1, 0, 1], n as u32, 1), (vec![1, 0, 0, 1, 1], 2, n as u32 / 5)].into_iter().enumerate()
        {
            for (j, rot) in ROTS.into_iter().enumerate() {
                let fmt = FMTS[(i + j + n) % 4];
                // what the format cannot hold is C23's
                let fmt = if n > 10_000 && fmt == Fmt::Webp || n > 65_535 && fmt == Fmt::Gif { Fmt::Png } else { fmt };
                v.push(Img { row: row.clone(), cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } });
            }
        }
    }
    v
}

/// Pictures wide and high at once, in every format and turned every way.
fn wide_and_high() -> Vec<Img> {
    let mut v = vec![];
    let (fg, bg) = ([10, 20, 30, 255], [40, 50, 60, 200]);
    for (row, height, xdim) in [
        (gen::long_row(257), 258, 1),
        (vec![1, 0], 310, 310),
        (gen::long_row(100), 300, 6),
        (gen::long_row(301), 601, 1),
        (gen::long_row(515), 513, 2),
        (vec![1, 0, 1], 1025, 341),
        (gen::long_row(1030), 1030, 1),
        (gen::long_row(95), 2060, 8),
        (gen::long_row(2048), 700, 1),
        (vec![1, 0, 0, 1, 1], 820, 820),
    ] {
        for fmt in FMTS {
            for rot in ROTS {
                v.push(Img { row: row.clone(), cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } });
            }
        }
    }
    v
}

/// Pictures with a side longer than 16 bits can count, and longer than a million.
fn vast() -> Vec<Img> {
    let mut v = vec![];
    let (fg, bg) = ([10, 20, 30, 255], [40, 50, 60, 200]);
    for (i, n) in [66_000usize, 131_100, 1_050_000].into_iter().enumerate() {
        for (k, (row, height, xdim)) in
            [(gen::long_row(n), 2, 1), (vec![1, 0, 1], n as u32, 1), (vec![1, 0, 0, 1, 1], 2, n as u32 / 5), (vec![0, 1], n as u32, 1)]
                .into_iter()
                .enumerate()
        {
            for (j, rot) in ROTS.into_iter().enumerate() {
                // 131_100 is also written to a file; the longest is C23's to write
                let fmt = if i == 1 && (j + k) % 2 == 0 { Fmt::Png } else { Fmt::Buf };
                v.push(Img { row: row.clone(), cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } });
            }
        }
    }
    v
}

fn buffer(c: &ImgCfg, row: &[u8]) -> Result<Pic, Fail> {
    real::buffer(c, row)?.map_err(|e| Fail(format!("generate_buffer fails with {}", real::bit_name(e))))
}

pub struct Buffer;

impl Prop for Buffer {
    type Case = Img;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "rows (arbitrary bits, runs, encodings, constant, empty) x heights 0..600 x x-dimensions 0..40 x RGBA colours (any, special alphas, equal, nearly equal), through all four output variants, unrotated; every pixel compared. Non-trivial: bars and spaces, at least one pixel, different colours."
    }
    fn cases(&self) -> (u64, u64) {
        (700_000, 15_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Img> {
        boxed(img(cx, 0).prop_map(|mut c| {
            c.cfg.rot = Rot::R0;
            c
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Img> {
        let mut v: Vec<Img> = grid().into_iter().chain(big()).chain(wide_and_high()).chain(vast()).filter(|c| c.cfg.rot == Rot::R0).collect();
        v.extend(every_size(300, 10).into_iter().map(|mut c| {
            c.cfg.rot = Rot::R0;
            c
        }));
        v
    }
    fn smaller(&self, c: &Img) -> Vec<Img> {
        smaller_img(c)
    }
    fn check(&self, _cx: &Cx, c: &Img, st: &mut Stats) -> Verdict {
        st.nontrivial = interesting(c);
        classes(c, st);
        let r = raster(&c.row, &c.cfg);
        let p = buffer(&c.cfg, &c.row)?;
        r.compare(p.w, p.h, &p.px, |a, b| a == b).map_err(Fail)?;
        for fmt in FMTS {
            let q = buffer(&ImgCfg { fmt, ..c.cfg }, &c.row)?;
            if (q.w, q.h) != (p.w, p.h) || q.px != p.px {
                fail!("the buffer of the {fmt:?} variant differs from that of {:?}", c.cfg.fmt);
            }
        }
        Ok(())
    }
}

pub struct Rotation;

fn turned(p: &Pic, rot: Rot) -> Pic {
    // pixel (x, y) moves to ... when the picture is turned clockwise
    let (w, h) = (p.w as usize, p.h as usize);
    let (tw, th) = match rot {
        Rot::R0 | Rot::R180 => (w, h),
        _ => (h, w),
    };
    let mut px = vec![0; w * h * 4];
    for y in 0..h {
        for x in 0..w {
            let (nx, ny) = match rot {
                Rot::R0 => (x, y),
                Rot::R90 => (h - 1 - y, x),
                Rot::R180 => (w - 1 - x, h - 1 - y),
                Rot::R270 => (y, w - 1 - x),
            };
            px[(ny * tw + nx) * 4..][..4].copy_from_slice(&p.px[(y * w + x) * 4..][..4]);
        }
    }
    Pic { w: tw as u32, h: th as u32, px }
}

fn gif_view(px: &[u8]) -> Vec<u8> {
    px.chunks(4).flat_map(|p| if p[3] == 0 { [0; 4] } else { [p[0], p[1], p[2], 255] }).collect()
}

impl Prop for Rotation {
    type Case = Img;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "rows, sizes (zero included for buffers) and colours as for C20, x all four rotations x buffer, GIF, PNG and WebP; the rotated output is compared pixel by pixel with the unrotated output turned clockwise by index arithmetic, and with the model. Non-trivial: bars and spaces, at least one pixel, different colours, rotation not zero."
    }
    fn cases(&self) -> (u64, u64) {
        (700_000, 15_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Img> {
        boxed(prop_oneof![4 => img(cx, 1), 1 => img(cx, 0).prop_map(|mut c| {
            c.cfg.fmt = Fmt::Buf;
            c
        })])
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Img> {
        grid().into_iter().chain(big()).chain(wide_and_high()).chain(vast()).chain(every_size(200, 6)).collect()
    }
    fn smaller(&self, c: &Img) -> Vec<Img> {
        smaller_img(c)
    }
    fn check(&self, _cx: &Cx, c: &Img, st: &mut Stats) -> Verdict {
        st.nontrivial = interesting(c) && c.cfg.rot != Rot::R0;
        classes(c, st);
        let straight = ImgCfg { rot: Rot::R0, ..c.cfg };
        let (a, b) = if c.cfg.fmt == Fmt::Buf {
            (buffer(&straight, &c.row)?, buffer(&c.cfg, &c.row)?)
        } else {
            let f = |k: &ImgCfg| -> Result<Pic, Fail> {
                let bytes = real::file(k, &c.row)?
                    .map_err(|e| Fail(format!("{:?} generate fails with {}", k.fmt, real::bit_name(e))))?;
                let mut p = real::decode_file(k.fmt, &bytes)?;
                if k.fmt == Fmt::Gif {
                    p.px = gif_view(&p.px);
                }
                Ok(p)
            };
            (f(&straight)?, f(&c.cfg)?)
        };
        let t = turned(&a, c.cfg.rot);
        if (t.w, t.h) != (b.w, b.h) {
            fail!(
                "unrotated {} x {}, rotated by {:?} {} x {}, should be {} x {}",
                a.w, a.h, c.cfg.rot, b.w, b.h, t.w, t.h
            );
        }
        if let Some(i) = (0..t.px.len() / 4).find(|i| t.px[i * 4..][..4] != b.px[i * 4..][..4]) {
            fail!(
                "pixel ({}, {}) of the picture rotated by {:?} is {:?}, should be {:?}",
                i as u32 % b.w, i as u32 / b.w, c.cfg.rot, &b.px[i * 4..][..4], &t.px[i * 4..][..4]
            );
        }
        // anchored in the model as well, so that both cannot be wrong the same way
        let gif = c.cfg.fmt == Fmt::Gif;
        let v = |p: Rgba| if gif { <[u8; 4]>::try_from(&gif_view(&p)[..]).unwrap() } else { p };
        raster(&c.row, &c.cfg).compare(b.w, b.h, &b.px, |a, w| a == v(w)).map_err(Fail)
    }
}

pub struct Files;

/// The file is one complete picture of the format and nothing else.
fn single(fmt: Fmt, b: &[u8]) -> Verdict {
    use image::AnimationDecoder;
    match fmt {
        Fmt::Gif => {
            if !(b.starts_with(b"GIF89a") || b.starts_with(b"GIF87a")) {
                fail!("not a GIF signature: {:?}", &b[..b.len().min(6)]);
            }
            if b.last() != Some(&0x3B) {
                fail!("the GIF does not end with its trailer");
            }
            let d = image::codecs::gif::GifDecoder::new(std::io::Cursor::new(b)).map_err(|e| Fail(e.to_string()))?;
            let n = d.into_frames().collect_frames().map_err(|e| Fail(format!("GIF frames: {e}")))?.len();
            if n != 1 {
                fail!("the GIF has {n} frames");
            }
        }
        Fmt::Png => {
            if !b.starts_with(b"\x89PNG\r\n\x1a\n") {
                fail!("not a PNG signature");
            }
            let mut at = 8;
            let mut kinds = vec![];
            while at + 12 <= b.len() {
                let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                kinds.push(b[at + 4..at + 8].to_vec());
                at += 12 + n;
            }
            let count = |k: &[u8]| kinds.iter().filter(|x| x == &k).count();
            if at != b.len() || kinds.last().map(|k| &k[..]) != Some(b"IEND") || count(b"IHDR") != 1 || count(b"IEND") != 1 {
                fail!("the PNG's chunks do not add up to one picture");
            }
        }
        Fmt::Webp => {
            if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" {
                fail!("not a WebP signature");
            }
            let n = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
            if n + 8 != b.len() {
                fail!("the WebP's RIFF size is {n}, the file has {} bytes", b.len());
            }
        }
        Fmt::Buf => {}
    }
    Ok(())
}

impl Prop for Files {
    type Case = Img;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "rows x sizes (at least one pixel) x rotations x RGBA colours x GIF, PNG, WebP; the bytes are decoded with the image crate's decoder of exactly that format and every pixel is compared with the buffer of the same settings and with the model. Non-trivial: bars and spaces and different colours."
    }
    fn cases(&self) -> (u64, u64) {
        (700_000, 15_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Img> {
        boxed((img(cx, 1), select(&FMTS[..3])).prop_map(|(mut c, fmt)| {
            c.cfg.fmt = fmt;
            c
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Img> {
        grid().into_iter().chain(big()).chain(wide_and_high()).chain(vast()).chain(every_size(200, 6)).filter(|c| c.cfg.fmt != Fmt::Buf).collect()
    }
    fn smaller(&self, c: &Img) -> Vec<Img> {
        smaller_img(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the image crate's decoders are right; GIF pixels are compared as red, green, blue where alpha is not zero and as transparent where it is".into()]
    }
    fn check(&self, _cx: &Cx, c: &Img, st: &mut Stats) -> Verdict {
        st.nontrivial = interesting(c);
        classes(c, st);
        let k = &c.cfg;
        let bytes = real::file(k, &c.row)?.map_err(|e| Fail(format!("{:?} generate fails with {}", k.fmt, real::bit_name(e))))?;
        single(k.fmt, &bytes)?;
        let p = real::decode_file(k.fmt, &bytes)?;
        let gif = k.fmt == Fmt::Gif;
        let same = |got: Rgba, want: Rgba| {
            if !gif {
                got == want
            } else if want[3] == 0 {
                got[3] == 0
            } else {
                got == [want[0], want[1], want[2], 255]
            }
        };
        raster(&c.row, k).compare(p.w, p.h, &p.px, same).map_err(|e| Fail(format!("{:?} file: {e}", k.fmt)))?;
        let b = buffer(k, &c.row)?;
        if (b.w, b.h) != (p.w, p.h) || b.px.chunks(4).zip(p.px.chunks(4)).any(|(b, f)| !same(f.try_into().unwrap(), b.try_into().unwrap())) {
            fail!("the {:?} file and the buffer with the same settings differ", k.fmt);
        }
        Ok(())
    }
}

pub struct Refusal;

/// `zeros` times a 0, then the row.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Long {
    #[serde(default, skip_serializing_if = "none")]
    pub zeros: u64,
    #[serde(flatten)]
    pub img: Img,
}
fn none(n: &u64) -> bool {
    *n == 0
}

fn plain(img: Img) -> Long {
    Long { zeros: 0, img }
}

/// Pixels above which a picture is not drawn, but for those of `areas`.
const AREA: u64 = 40_000_000;

/// Pictures of hundreds of megapixels that every format holds in length and height, each
/// in a process of its own.
fn areas(thorough: bool) -> Vec<Img> {
    let mut v = vec![];
    let mut add = |fmt, row: Vec<u8>, xdim, height, rot| v.push(Img { row, cfg: ImgCfg { fmt, height, xdim, rot, fg: [9, 8, 7, 255], bg: [200; 4] } });
    add(Fmt::Buf, vec![1, 0], 8_192, 8_200, Rot::R90);
    add(Fmt::Buf, vec![1, 0], 16_400, 8_200, Rot::R0);
    for fmt in [Fmt::Png, Fmt::Gif, Fmt::Webp] {
        add(fmt, vec![0, 1], 5_100, 10_000, Rot::R0);
    }
    if thorough {
        // more bytes than 32 bits can count
        add(Fmt::Buf, vec![0, 1], 32_800, 16_400, Rot::R0);
        for rot in [Rot::R0, Rot::R180, Rot::R270] {
            add(Fmt::Png, vec![0, 1, 1], 8_192, 4_500, rot);
            add(Fmt::Buf, vec![0, 1, 1], 5_500, 16_500, rot);
        }
    }
    v
}

/// Size, and the pixels at some thousands of places.
fn vast_here_checked(c: &Img) -> Verdict {
    let k = &c.cfg;
    let p = if k.fmt == Fmt::Buf {
        buffer(k, &c.row)?
    } else {
        let b = real::file(k, &c.row)?.map_err(|e| Fail(format!("{:?} generate fails with {}", k.fmt, real::bit_name(e))))?;
        real::decode_file(k.fmt, &b)?
    };
    let r = raster(&c.row, k);
    if (p.w as u64, p.h as u64) != r.size() || p.px.len() as u64 != 4 * p.w as u64 * p.h as u64 {
        fail!("{} x {} with {} bytes, should be {:?}", p.w, p.h, p.px.len(), r.size());
    }
    for i in 0..20_000u64 {
        let (w, h) = (p.w as u64, p.h as u64);
        let (x, y) = match i {
            0..=3 => (i % 2 * (w - 1), i / 2 * (h - 1)),
            _ => (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) % w, i.wrapping_mul(0xC2B2_AE3D_27D4_EB4F) % h),
        };
        let at = ((y * w + x) * 4) as usize;
        let (got, want) = (&p.px[at..at + 4], r.pixel(x, y));
        if k.fmt == Fmt::Gif && got[..3] != want[..3] || k.fmt != Fmt::Gif && got != want {
            fail!("pixel ({x}, {y}) is {got:?}, should be {want:?}");
        }
    }
    Ok(())
}

pub fn vast_here(json: &str) {
    let c: Long = serde_json::from_str(json).expect("case");
    match if c.zeros > 0 { long_here_checked(&c) } else { vast_here_checked(&c.img) } {
        Ok(()) => println!("as expected"),
        Err(f) => println!("{}", f.0),
    }
}

/// A row of more modules than 32 bits can count is refused.
fn long_here_checked(c: &Long) -> Verdict {
    let k = &c.img.cfg;
    let n = c.zeros as usize + c.img.row.len();
    // pages that are never written cost nothing
    let mut row = vec![0u8; n];
    row[c.zeros as usize..].copy_from_slice(&c.img.row);
    match (real::file(k, &row)?, real::buffer(k, &row)?) {
        (Err(E_GEN), Err(E_GEN)) => Ok(()),
        (Err(E_GEN), Ok(p)) if k.xdim == 0 && p.px.is_empty() => Ok(()),
        (Err(E_GEN), Ok(p)) => fail!("a buffer of {} x {} for a row of {n} modules", p.w, p.h),
        (f, _) => fail!("a row of {n} modules gives {:?} instead of the generation error", f.map(|b| b.len())),
    }
}

fn area(c: &Long, st: &mut Stats) -> Verdict {
    st.nontrivial = true;
    st.class(if c.zeros > 0 { "a row longer than 32 bits can count" } else { "over forty megapixels" });
    match super::accept::alone("vast", &serde_json::to_string(c).unwrap())?.trim() {
        "" => {
            st.class("inconclusive: not enough memory or time for so large a picture");
            Ok(())
        }
        "as expected" => Ok(()),
        s => fail!("{:?} of {} modules {} wide, {} high: {s}", c.img.cfg.fmt, c.zeros + c.img.row.len() as u64, c.img.cfg.xdim, c.img.cfg.height),
    }
}

pub fn limit(fmt: Fmt) -> u64 {
    match fmt {
        Fmt::Gif => 65_535,
        Fmt::Webp => 16_384,
        _ => u32::MAX as u64,
    }
}

impl Prop for Refusal {
    type Case = Long;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "rows x heights x x-dimensions x rotations x all variants, with picture sizes zero, small, just below, at and just above each format's limit in either direction, widths around and beyond 32 bits, a few pictures of over a hundred megapixels, and rows of more than 2^32 modules (these in processes of their own). Non-trivial: a picture that must be refused, or one within 2 of a format's limit."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 1_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Long> {
        // a target width, reached by row length times x-dimension
        let target = prop_oneof![
            2 => select(vec![16_382u64, 16_383, 16_384, 16_385, 16_386, 65_533, 65_534, 65_535, 65_536, 65_537]),
            1 => 0u64..=70_000,
        ];
        let split = (target.clone(), select(vec![1u64, 2, 3, 4, 5, 8, 15, 16, 32, 64, 101, 128, 255, 1000]), 0u64..=2).prop_map(|(w, x, h)| {
            // exact when x divides w
            let x = if w % x == 0 { x } else { 1 };
            (w / x, x, h)
        });
        let tall = (0u64..=2, 0u64..=2, target).prop_map(|(n, x, h)| (n, x, h));
        let huge = (1u64..=70_000, prop_oneof![Just(0u64), Just(1), 2u64..40]).prop_map(|(n, h)| {
            let x = (1u64 << 32).div_ceil(n);
            (n, x.min(u32::MAX as u64), h)
        });
        let huge2 = (2u64..=64, 0u64..=4, any::<u32>()).prop_map(|(n, h, x)| (n, (x as u64).max((1u64 << 32).div_ceil(n)).min(u32::MAX as u64), h));
        // many columns but no pixel; not so many that drawing a row aside is too much
        let flat = (1u64..=64, 0u64..=3).prop_map(|(n, d)| (n, ((1u64 << 20) / n).saturating_sub(1 + d), 0));
        let zero = (0u64..=5, 0u64..=5, 0u64..=5);
        let dims = prop_oneof![4 => split, 2 => tall, 2 => huge, 1 => huge2, 1 => flat, 3 => zero];
        let small = img(cx, 0);
        let made = (dims, any::<bool>(), gen::rot(), gen::colours(), select(&FMTS[..])).prop_map(|((n, x, h), odd, rot, (fg, bg), fmt)| Img {
            row: (0..n).map(|i| ((i + odd as u64) % 2) as u8).collect(),
            cfg: ImgCfg { fmt, height: h as u32, xdim: x as u32, rot, fg, bg },
        });
        boxed(prop_oneof![5 => made, 1 => small].prop_map(plain))
    }
    fn fixed(&self, cx: &Cx) -> Vec<Long> {
        let mut v = areas(cx.thorough());
        let (fg, bg) = ([0, 0, 0, 255], [255; 4]);
        for fmt in FMTS {
            for rot in ROTS {
                for (n, xdim, height) in [
                    (0, 1, 1),
                    (1, 0, 1),
                    (1, 1, 0),
                    (0, 0, 0),
                    (16_384, 1, 1),
                    (16_385, 1, 1),
                    (65_535, 1, 1),
                    (65_536, 1, 1),
                    (1, 16_384, 1),
                    (1, 16_385, 1),
                    (1, 65_535, 1),
                    (1, 65_536, 1),
                    (1, 1, 16_384),
                    (1, 1, 16_385),
                    (1, 1, 65_535),
                    (1, 1, 65_536),
                    (2, 1 << 31, 1),
                    (2, u32::MAX, 1),
                    (65_536, 65_536, 1),
                    (3, 1 << 31, 0),
                    (1, 1 << 20, 0),
                    (16_384, 1, 256),
                    (3, 100, 16_384),
                    (1000, 1, 16_384),
                    (255, 257, 255),
                    (257, 1, 65_535),
                    (4096, 1, 4096),
                    (1_000_001, 1, 1),
                    (1, 1_000_001, 1),
                    (3, 1, 1_000_001),
                    (2, 1 << 20, 1),
                    (1 << 21, 1, 2),
                    (3, 700_001, 1),
                ] {
                    v.push(Img { row: (0..n).map(|i| (i % 2) as u8).collect(), cfg: ImgCfg { fmt, height, xdim, rot, fg, bg } });
                }
            }
        }
        let mut v: Vec<Long> = v.into_iter().map(plain).collect();
        for (i, fmt) in FMTS.into_iter().enumerate() {
            for (row, xdim, height) in [(vec![1, 0], 1, 1), (vec![1, 0, 1], 0, 1), (vec![1], 2, 3)] {
                v.push(Long { zeros: 1 << 32, img: Img { row, cfg: ImgCfg { fmt, height, xdim, rot: ROTS[i], fg, bg } } });
            }
        }
        v
    }
    fn smaller(&self, c: &Long) -> Vec<Long> {
        if c.img.row.len() > 300 || c.zeros > 0 {
            return vec![];
        }
        smaller_row(&c.img.row).into_iter().map(|row| plain(Img { row, cfg: c.img.cfg })).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["pictures that do not fit in memory are outside the property; a buffer with no pixels is admitted as success or as the generation error".into()]
    }
    fn check(&self, _cx: &Cx, long: &Long, st: &mut Stats) -> Verdict {
        if long.zeros > 0 {
            return if long.zeros >> 32 == 1 { area(long, st) } else { Ok(()) };
        }
        let c = &long.img;
        let k = &c.cfg;
        classes(c, st);
        let w = c.row.len() as u64 * k.xdim as u64;
        let h = k.height as u64;
        let (tw, th) = if matches!(k.rot, Rot::R90 | Rot::R270) { (h, w) } else { (w, h) };
        let max = limit(k.fmt);
        let wide = w > u32::MAX as u64;
        // beyond what this sandbox should be asked to draw, row by row or column by column
        if !wide && w.max(1).saturating_mul(h.max(1)) > AREA {
            if areas(true).contains(c) {
                return area(long, st);
            }
            st.class("too large to draw, skipped");
            return Ok(());
        }
        let must_fail = k.fmt == Fmt::Buf || wide || w == 0 || h == 0 || tw > max || th > max;
        st.nontrivial = must_fail || max.abs_diff(tw) <= 2 || max.abs_diff(th) <= 2;
        st.class_if(k.fmt != Fmt::Buf && (tw == max || th == max), "exactly at a limit");
        st.class_if(k.fmt != Fmt::Buf && (tw == max + 1 || th == max + 1), "one beyond a limit");
        st.class_if(wide, "wider than 32 bits");
        let what = || format!("{:?} of {tw} x {th} (row of {}, x-dimension {}, height {}, {:?})", k.fmt, c.row.len(), k.xdim, k.height, k.rot);
        match (must_fail, real::file(k, &c.row)?) {
            (true, Err(E_GEN)) => {}
            (true, Err(e)) => fail!("{} fails with {}, not Generate", what(), real::bit_name(e)),
            (true, Ok(b)) => fail!("{} gives {} bytes instead of the generation error", what(), b.len()),
            (false, Err(e)) => fail!("{} fails with {}", what(), real::bit_name(e)),
            (false, Ok(b)) => {
                let p = real::decode_file(k.fmt, &b)?;
                if (p.w as u64, p.h as u64) != (tw, th) {
                    fail!("{} decodes to {} x {}", what(), p.w, p.h);
                }
            }
        }
        match (wide, real::buffer(k, &c.row)?) {
            (true, Err(E_GEN)) => Ok(()),
            (true, Ok(p)) => fail!("{} gives a buffer of {} x {}", what(), p.w, p.h),
            (_, Err(e)) if e != E_GEN || (w > 0 && h > 0) => fail!("{}: buffer fails with {}", what(), real::bit_name(e)),
            (_, Err(_)) => Ok(()),
            (false, Ok(p)) if (p.w as u64, p.h as u64) != (tw, th) => fail!("{}: buffer is {} x {}", what(), p.w, p.h),
            (false, Ok(_)) => Ok(()),
        }
    }
}
