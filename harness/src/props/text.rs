//! C16-C19: ASCII, JSON, SVG.

use crate::engine::{boxed, Cx, Fail, Prop, Stats, Verdict};
use crate::fail;
use crate::gen;
use crate::model::render::*;
use crate::real::{self, SvgCfg};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scaled {
    pub row: Vec<u8>,
    pub height: usize,
    pub xdim: usize,
}

pub fn smaller_row(r: &[u8]) -> Vec<Vec<u8>> {
    let t: String = r.iter().map(|b| (b'0' + b) as char).collect();
    gen::smaller_text(&t, '0').into_iter().map(|s| s.bytes().map(|b| b - b'0').collect()).collect()
}

fn smaller_scaled(c: &Scaled) -> Vec<Scaled> {
    let rows = smaller_row(&c.row).into_iter().map(|row| Scaled { row, ..c.clone() });
    let heights = gen::smaller_number(c.height).into_iter().map(|height| Scaled { height, ..c.clone() });
    let xdims = gen::smaller_number(c.xdim).into_iter().map(|xdim| Scaled { xdim, ..c.clone() });
    rows.chain(heights).chain(xdims).collect()
}

fn row_classes(row: &[u8], st: &mut Stats) {
    st.class_if(row.is_empty(), "empty row");
    st.class_if(row.len() > 255, "row longer than 255");
}
fn mixed(row: &[u8]) -> bool {
    row.contains(&0) && row.contains(&1)
}

pub struct Ascii;

impl Prop for Ascii {
    type Case = Scaled;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "rows (arbitrary bits, runs, encodings of all symbologies, constant, empty; up to 3000 modules, fixed ones up to 16777300) x heights 0..300 x x-dimensions 0..300, the product bounded at about a million characters. Non-trivial: bars and spaces, height and x-dimension at least 1."
    }
    fn cases(&self) -> (u64, u64) {
        (1_200_000, 24_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Scaled> {
        let small = (gen::row(cx, 120), gen::size(cx, 24), gen::size(cx, 24));
        let long = (gen::row(cx, 3000), gen::size(cx, 4), gen::size(cx, 4));
        let wide = (gen::row(cx, 12), gen::size(cx, 300), gen::size(cx, 300));
        let spread = gen::spread(100_000, 20_000).prop_map(|(row, x, h)| (row, h, x));
        boxed((prop_oneof![20 => small, 2 => long, 1 => wide, 1 => spread], gen::ties()).prop_map(|((row, height, xdim), how)| {
            let (height, xdim) = gen::tie(row.len(), height, xdim, how, 200_000);
            Scaled { row, height, xdim }
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Scaled> {
        let mut v = vec![];
        for height in 0..20 {
            for xdim in 0..20 {
                for row in [vec![], vec![1], vec![0], vec![1, 0, 1], vec![0, 1, 1, 0]] {
                    v.push(Scaled { row, height, xdim });
                }
            }
        }
        for n in gen::LONG {
            v.push(Scaled { row: gen::long_row(n), height: 2, xdim: 1 });
            v.push(Scaled { row: vec![1, 0, 1], height: n, xdim: 2 });
            v.push(Scaled { row: vec![1, 0, 1], height: 2, xdim: n });
        }
        for n in gen::MILLIONS {
            v.push(Scaled { row: gen::long_row(n), height: 1, xdim: 1 });
            v.push(Scaled { row: vec![1], height: n, xdim: 1 });
            v.push(Scaled { row: vec![], height: n, xdim: 1 });
            v.push(Scaled { row: vec![0, 1], height: 1, xdim: n });
        }
        v.extend(gen::sweep(300, 8, 12).into_iter().map(|(row, xdim, height)| Scaled { row, height, xdim }));
        v.extend((0..=1100).map(|height| Scaled { row: vec![1, 0, 1], height, xdim: 1 + height % 3 }));
        v.extend(gen::cubes(130).map(|(row, n)| Scaled { row, height: n, xdim: n }));
        v.extend((1..=400).map(|n| Scaled { row: vec![1, 0, 1], height: n, xdim: n }));
        v
    }
    fn smaller(&self, c: &Scaled) -> Vec<Scaled> {
        smaller_scaled(c)
    }
    fn check(&self, _cx: &Cx, c: &Scaled, st: &mut Stats) -> Verdict {
        st.nontrivial = mixed(&c.row) && c.height > 0 && c.xdim > 0;
        row_classes(&c.row, st);
        st.class_if(c.height == 0, "height 0");
        st.class_if(c.xdim == 0, "xdim 0");
        st.class_if(c.xdim > 1, "xdim over 1");
        let out = real::ascii(&c.row, c.height, c.xdim)?;
        check_ascii(&c.row, c.height, c.xdim, &out).map_err(Fail)
    }
}

pub struct Json;

impl Prop for Json {
    type Case = Scaled;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "rows (arbitrary bits, runs, encodings of all symbologies, constant, empty; up to 3000 modules, fixed ones up to 16777300) x heights and x-dimensions over all of usize (small, powers of two and neighbours, extremes, uniform). Non-trivial: the row has bars and spaces."
    }
    fn cases(&self) -> (u64, u64) {
        (2_000_000, 40_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<Scaled> {
        let size = || {
            boxed(prop_oneof![
                4 => gen::any_u32(cx).prop_map(|x| x as usize),
                1 => any::<usize>(),
                1 => select(vec![usize::MAX, usize::MAX - 1, 1 << 53, (1 << 53) + 1, 1 << 63, u32::MAX as usize + 1]),
            ])
        };
        let row = prop_oneof![12 => gen::row(cx, 150), 1 => gen::row(cx, 3000)];
        boxed((row, size(), size(), gen::ties()).prop_map(|(row, height, xdim, how)| {
            let (height, xdim) = gen::tie(row.len(), height, xdim, how, u64::MAX);
            Scaled { row, height, xdim }
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<Scaled> {
        let mut v: Vec<Scaled> = gen::LONG.iter().map(|n| Scaled { row: gen::long_row(*n), height: 10, xdim: 1 }).collect();
        v.extend(gen::MILLIONS.iter().map(|n| Scaled { row: gen::long_row(*n), height: 10, xdim: 1 }));
        for b in 0..64 {
            for n in [(1usize << b) - 1, 1 << b] {
                v.push(Scaled { row: vec![1, 0, 1], height: n, xdim: 1 });
                v.push(Scaled { row: vec![1, 0, 1], height: 10, xdim: n });
            }
        }
        v.extend(gen::sweep(600, 5, 12).into_iter().map(|(row, xdim, height)| Scaled { row, height, xdim }));
        v.extend((0..=1100).map(|n| Scaled { row: vec![1, 0, 1], height: n, xdim: 1100 - n }));
        v.extend(gen::cubes(1100).map(|(row, n)| Scaled { row, height: n, xdim: n }));
        v
    }
    fn smaller(&self, c: &Scaled) -> Vec<Scaled> {
        smaller_scaled(c)
    }
    fn check(&self, _cx: &Cx, c: &Scaled, st: &mut Stats) -> Verdict {
        st.nontrivial = mixed(&c.row);
        row_classes(&c.row, st);
        st.class_if(c.height > u32::MAX as usize, "height beyond 32 bits");
        let out = real::json(&c.row, c.height, c.xdim)?;
        check_json(&c.row, c.height as u64, c.xdim as u64, &out).map_err(Fail)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SvgCase {
    pub row: Vec<u8>,
    pub cfg: SvgCfg,
}

fn svg_case(cx: &Cx) -> BoxedStrategy<SvgCase> {
    let row = prop_oneof![20 => gen::row(cx, 120), 1 => gen::row(cx, 3000)];
    let ns = prop_oneof![2 => Just(None), 1 => gen::namespace(cx).prop_map(Some)];
    let spread = gen::spread(1 << 22, 2000).prop_map(|(row, x, _)| (row, x as u32));
    let sized = prop_oneof![16 => (row, gen::any_u32(cx)), 2 => gen::aimed(3000), 1 => spread];
    boxed((sized, gen::any_u32(cx), gen::colours(), ns, gen::ties()).prop_map(|((row, xdim), height, (fg, bg), xmlns, how)| {
        let (h, x) = gen::tie(row.len(), height as usize, xdim as usize, how, u64::MAX);
        let (height, xdim) = (u32::try_from(h).unwrap_or(height), u32::try_from(x).unwrap_or(xdim));
        SvgCase { row, cfg: SvgCfg { height, xdim, fg, bg, xmlns } }
    }))
}

fn smaller_svg(c: &SvgCase) -> Vec<SvgCase> {
    let mut v: Vec<SvgCase> = smaller_row(&c.row).into_iter().map(|row| SvgCase { row, cfg: c.cfg.clone() }).collect();
    v.extend(gen::smaller_number(c.cfg.height).into_iter().map(|height| SvgCase { row: c.row.clone(), cfg: SvgCfg { height, ..c.cfg.clone() } }));
    v.extend(gen::smaller_number(c.cfg.xdim).into_iter().map(|xdim| SvgCase { row: c.row.clone(), cfg: SvgCfg { xdim, ..c.cfg.clone() } }));
    if let Some(n) = &c.cfg.xmlns {
        let mut d = c.clone();
        d.cfg.xmlns = None;
        v.push(d);
        for t in gen::smaller_text(n, 'a') {
            let mut d = c.clone();
            d.cfg.xmlns = Some(t);
            v.push(d);
        }
    }
    v
}

pub struct SvgGeometry;

impl Prop for SvgGeometry {
    type Case = SvgCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "rows (arbitrary bits, runs, encodings, constant, empty; up to 3000 modules, fixed ones up to 16777300) x heights and x-dimensions over all of u32 x colours x namespaces. Non-trivial: bars and spaces, height and x-dimension at least 1, distinguishable colours."
    }
    fn cases(&self) -> (u64, u64) {
        (500_000, 10_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<SvgCase> {
        svg_case(cx)
    }
    fn fixed(&self, _cx: &Cx) -> Vec<SvgCase> {
        let mut v = vec![];
        for (height, xdim) in [(0, 1), (1, 0), (0, 0), (u32::MAX, u32::MAX), (1, u32::MAX), (80, 1 << 31), (80, 65536), (3, 7)] {
            for row in [vec![], vec![1], vec![0], vec![1, 0, 1], vec![0, 1, 1, 0, 0]] {
                v.push(SvgCase { row, cfg: SvgCfg { height, xdim, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None } });
            }
        }
        for n in gen::LONG {
            v.push(SvgCase { row: gen::long_row(n), cfg: SvgCfg { height: 10, xdim: 3, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None } });
        }
        for n in gen::MILLIONS {
            v.push(SvgCase { row: gen::sparse_row(n), cfg: SvgCfg { height: 10, xdim: 2, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None } });
        }
        v.push(SvgCase { row: gen::long_row(1_050_001), cfg: SvgCfg { height: 10, xdim: 1, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None } });
        for b in 0..32 {
            for n in [(1u32 << b) - 1, 1 << b] {
                for (height, xdim) in [(n, 1), (10, n)] {
                    v.push(SvgCase { row: vec![1, 0, 0, 1, 1], cfg: SvgCfg { height, xdim, fg: [0, 0, 9, 255], bg: [255; 4], xmlns: None } });
                }
            }
        }
        v.extend(gen::sweep(300, 9, 12).into_iter().map(|(row, x, h)| {
            let (fg, bg) = if (row.len() + x) % 3 == 0 { ([1, 2, 3, 128], [4, 5, 6, 64]) } else { ([0, 0, 0, 255], [255; 4]) };
            SvgCase { row, cfg: SvgCfg { height: h as u32, xdim: x as u32, fg, bg, xmlns: None } }
        }));
        v.extend(gen::cubes(1100).map(|(row, n)| SvgCase {
            row,
            cfg: SvgCfg { height: n as u32, xdim: n as u32, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None },
        }));
        v.push(SvgCase {
            row: [1, 0].repeat(40_000),
            cfg: SvgCfg { height: 10, xdim: 60_000, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None },
        });
        v
    }
    fn smaller(&self, c: &SvgCase) -> Vec<SvgCase> {
        smaller_svg(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["any list of axis-aligned boxes that paints the same picture is admitted; bars are painted over the background, as SVG's painting order has it".into()]
    }
    fn check(&self, _cx: &Cx, c: &SvgCase, st: &mut Stats) -> Verdict {
        let k = &c.cfg;
        st.nontrivial = mixed(&c.row) && k.height > 0 && k.xdim > 0 && k.fg != k.bg;
        row_classes(&c.row, st);
        st.class_if(c.row.len() as u64 * k.xdim as u64 > u32::MAX as u64, "wider than 32 bits");
        let out = real::svg(k, &c.row)?;
        let svg = read_svg(&out).map_err(Fail)?;
        check_svg_geometry(&c.row, k.height, k.xdim, k.fg, k.bg, &svg).map_err(Fail)
    }
}

pub struct SvgColours;

impl Prop for SvgColours {
    type Case = SvgCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "foreground and background over all RGBA values (all 256 values of each channel and alpha are tried in turn; special alphas; equal and nearly equal pairs) x namespaces (none, usual, strings of markup characters, entities, non-ASCII) x rows x sizes. Non-trivial: a namespace with a markup character, or a colour that is not opaque black or white."
    }
    fn cases(&self) -> (u64, u64) {
        (1_500_000, 30_000_000)
    }
    fn strategy(&self, cx: &Cx) -> BoxedStrategy<SvgCase> {
        let ns = prop_oneof![1 => Just(None), 2 => gen::namespace(cx).prop_map(Some)];
        let row = gen::row(cx, 12);
        boxed((row, 0u32..100, 1u32..10, gen::colours(), ns).prop_map(|(row, height, xdim, (fg, bg), xmlns)| SvgCase {
            row,
            cfg: SvgCfg { height, xdim, fg, bg, xmlns },
        }))
    }
    fn fixed(&self, _cx: &Cx) -> Vec<SvgCase> {
        let mut v = vec![];
        for i in 0..=255u8 {
            for (fg, bg) in [
                ([0, 0, 0, i], [255, 255, 255, 255]),
                ([0, 0, 0, 255], [255, 255, 255, i]),
                ([i, 1, 2, 255], [3, i, 4, 255]),
                ([5, 6, i, 255], [i, 7, 8, 255]),
                ([9, i, 9, i], [i, i, i, i]),
            ] {
                v.push(SvgCase { row: vec![1, 0, 1, 1], cfg: SvgCfg { height: 7, xdim: 2, fg, bg, xmlns: None } });
            }
        }
        for n in ["", "a", "&", "<", ">", "\"", "'", "&amp;", "&#38;", "http://x/?a=1&b=2", "\" x=\"", "--><svg>", "\u{E9}\u{4E2D}\u{1F600}", "  a  b "] {
            v.push(SvgCase {
                row: vec![1, 0, 1],
                cfg: SvgCfg { height: 5, xdim: 1, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: Some(n.into()) },
            });
        }
        v
    }
    fn smaller(&self, c: &SvgCase) -> Vec<SvgCase> {
        smaller_svg(c)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["opacity may be written with fill-opacity or opacity; an attribute value is read as an XML parser does".into()]
    }
    fn check(&self, _cx: &Cx, c: &SvgCase, st: &mut Stats) -> Verdict {
        let k = &c.cfg;
        let plain = |c: Rgba| c == [0, 0, 0, 255] || c == [255; 4];
        let markup = k.xmlns.as_ref().is_some_and(|n| n.contains(['&', '<', '>', '"', '\'']));
        st.nontrivial = markup || !plain(k.fg) || !plain(k.bg);
        st.class_if(markup, "namespace with markup characters");
        st.class_if(k.xmlns.is_none(), "no namespace");
        st.class_if(k.fg[3] != 255 || k.bg[3] != 255, "translucent colour");
        let out = real::svg(k, &c.row)?;
        let svg = read_svg(&out).map_err(Fail)?;
        if svg.xmlns != k.xmlns {
            fail!("xmlns is {:?}, configured {:?}: {}", svg.xmlns, k.xmlns, clip(&out));
        }
        // colours as painted
        if c.row.is_empty() || k.height == 0 {
            return Ok(());
        }
        for s in svg.rects.iter().map(|r| r.style) {
            if !style_is(&s, k.fg) && !style_is(&s, k.bg) {
                fail!("a box is filled with {s:?}, configured are {:?} and {:?}", k.fg, k.bg);
            }
        }
        check_svg_geometry(&c.row, k.height, k.xdim, k.fg, k.bg, &svg).map_err(Fail)
    }
}
