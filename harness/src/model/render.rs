//! What each generator's output must be, for a row and settings; and readers that
//! recover the row from an output.

use super::xml;
use serde::{Deserialize, Serialize};

type R<T> = Result<T, String>;
pub type Rgba = [u8; 4];

pub fn clip<T: std::fmt::Debug>(t: T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s
    }
}

// ---------------------------------------------------------------- ASCII

pub fn check_ascii(row: &[u8], height: usize, xdim: usize, out: &str) -> R<()> {
    if height == 0 {
        return if out.is_empty() { Ok(()) } else { Err(format!("height 0 gives {}", clip(out))) };
    }
    let lines: Vec<&[u8]> = out.as_bytes().split(|&b| b == b'\n').collect();
    if lines.len() != height {
        return Err(format!("{} lines, height is {height}", lines.len()));
    }
    for (n, l) in lines.iter().enumerate() {
        if l.len() != row.len() * xdim {
            return Err(format!("line {n} has {} characters, should have {}", l.len(), row.len() * xdim));
        }
        for (i, &b) in l.iter().enumerate() {
            let want = if row[i / xdim] == 1 { b'#' } else { b' ' };
            if b != want {
                return Err(format!("line {n} column {i} is {:?}, should be {:?}", b as char, want as char));
            }
        }
    }
    Ok(())
}

pub fn read_ascii(xdim: usize, out: &str) -> R<Vec<u8>> {
    let l = out.lines().next().ok_or("no line")?;
    if out.lines().any(|x| x != l) {
        return Err("lines differ".into());
    }
    l.as_bytes()
        .chunks(xdim)
        .map(|c| match c[0] {
            b if c.iter().any(|x| *x != b) || c.len() != xdim => Err("mixed module".to_string()),
            b'#' => Ok(1),
            b' ' => Ok(0),
            b => Err(format!("character {:?}", b as char)),
        })
        .collect()
}

// ---------------------------------------------------------------- JSON

#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct J {
    height: u64,
    xdim: u64,
    encoding: Vec<u64>,
}

pub fn read_json(out: &str) -> R<(u64, u64, Vec<u8>)> {
    let j: J = serde_json::from_str(out).map_err(|e| format!("not the documented JSON object: {e}: {}", clip(out)))?;
    let row = j
        .encoding
        .iter()
        .map(|&x| if x <= 1 { Ok(x as u8) } else { Err(format!("element {x}")) })
        .collect::<R<Vec<u8>>>()?;
    Ok((j.height, j.xdim, row))
}

pub fn check_json(row: &[u8], height: u64, xdim: u64, out: &str) -> R<()> {
    let (h, x, r) = read_json(out)?;
    if h != height || x != xdim {
        return Err(format!("height {h} xdim {x}, settings were {height} and {xdim}"));
    }
    if r != row {
        return Err(row_diff(row, &r));
    }
    Ok(())
}

pub fn row_str(r: &[u8]) -> String {
    r.iter().map(|b| if *b < 10 { (b'0' + b) as char } else { '?' }).collect()
}

pub fn row_diff(want: &[u8], got: &[u8]) -> String {
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let lo = at.saturating_sub(12);
    let w = &want[lo..want.len().min(at + 24)];
    let g = &got[lo..got.len().min(at + 24)];
    format!(
        "module row differs from module {at}: expected ({} modules) ..{}.. got ({} modules) ..{}..",
        want.len(),
        row_str(w),
        got.len(),
        row_str(g)
    )
}

// ---------------------------------------------------------------- SVG

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    pub rgb: [u8; 3],
    pub opacity: f64,
}

#[derive(Clone, Debug)]
pub struct Rect {
    pub x: u128,
    pub y: u128,
    pub w: u128,
    pub h: u128,
    pub style: Style,
}

#[derive(Clone, Debug)]
pub struct Svg {
    pub w: u128,
    pub h: u128,
    pub xmlns: Option<String>,
    pub rects: Vec<Rect>,
}

fn num(e: &xml::Element, n: &str, default: Option<u128>) -> R<u128> {
    match e.attr(n) {
        Some(v) => v.parse().map_err(|_| format!("{n}={v:?} is not a whole number")),
        None => default.ok_or_else(|| format!("a {} has no {n}", e.name)),
    }
}

pub fn read_svg(out: &str) -> R<Svg> {
    let e = xml::parse(out)?;
    if e.name != "svg" {
        return Err(format!("root element is {}", e.name));
    }
    let vb = e.attr("viewBox").ok_or("no viewBox")?;
    let v: Vec<u128> = vb
        .split_whitespace()
        .map(|x| x.parse().map_err(|_| format!("viewBox {vb:?}")))
        .collect::<R<_>>()?;
    if v.len() != 4 || v[0] != 0 || v[1] != 0 {
        return Err(format!("viewBox {vb:?}"));
    }
    let mut rects = vec![];
    for c in &e.children {
        if c.name != "rect" {
            return Err(format!("unexpected element {}", c.name));
        }
        let f = c.attr("fill").ok_or("a rect has no fill")?;
        let n = colour(f).ok_or_else(|| format!("fill {f:?}"))?;
        let mut opacity = 1.0;
        for a in ["fill-opacity", "opacity"] {
            if let Some(o) = c.attr(a) {
                let v: f64 = o.parse().map_err(|_| format!("{a} {o:?}"))?;
                if !(0.0..=1.0).contains(&v) {
                    return Err(format!("{a} {o:?}"));
                }
                opacity *= v;
            }
        }
        rects.push(Rect {
            x: num(c, "x", Some(0))?,
            y: num(c, "y", Some(0))?,
            w: num(c, "width", None)?,
            h: num(c, "height", None)?,
            style: Style { rgb: [(n >> 16) as u8, (n >> 8) as u8, n as u8], opacity },
        });
    }
    Ok(Svg { w: v[2], h: v[3], xmlns: e.attr("xmlns").map(String::from), rects })
}

/// A colour in any of the usual notations.
fn colour(f: &str) -> Option<u32> {
    match f {
        "black" => return Some(0),
        "white" => return Some(0xFF_FFFF),
        _ => {}
    }
    if let Some(h) = f.strip_prefix('#').filter(|h| h.bytes().all(|b| b.is_ascii_hexdigit())) {
        let n = u32::from_str_radix(h, 16).ok()?;
        return match h.len() {
            6 => Some(n),
            // #abc is short for #aabbcc
            3 => Some((n >> 8) * 0x11_0000 + (n >> 4 & 15) * 0x1100 + (n & 15) * 0x11),
            _ => None,
        };
    }
    let v: Option<Vec<u8>> = f.strip_prefix("rgb(")?.strip_suffix(')')?.split(',').map(|c| c.trim().parse().ok()).collect();
    match v?[..] {
        [r, g, b] => Some(u32::from(r) << 16 | u32::from(g) << 8 | u32::from(b)),
        _ => None,
    }
}

pub fn style_is(s: &Style, c: Rgba) -> bool {
    let want = c[3] as f64 / 255.0;
    s.rgb == c[..3]
        && (s.opacity - want).abs() <= 0.005 + 1e-9
        && (c[3] != 255 || s.opacity == 1.0)
}

/// What is painted, bottom to top, on each stretch of x inside the box; layers
/// hidden below a fully opaque one are dropped.
pub fn paint(svg: &Svg) -> R<Vec<(u128, u128, Vec<Style>)>> {
    let mut cuts = vec![0, svg.w];
    let mut live = vec![];
    for r in &svg.rects {
        if r.w == 0 || r.h == 0 || r.x >= svg.w || r.y >= svg.h {
            continue;
        }
        if r.y != 0 || r.y + r.h < svg.h {
            return Err(format!("a box spans y {} to {}, the picture 0 to {}", r.y, r.y + r.h, svg.h));
        }
        cuts.push(r.x);
        cuts.push((r.x + r.w).min(svg.w));
        live.push(r);
    }
    cuts.sort_unstable();
    cuts.dedup();
    // Boxes by start, in document order within a stretch.
    let mut starts: Vec<(u128, usize)> = live.iter().enumerate().map(|(i, r)| (r.x, i)).collect();
    starts.sort_unstable();
    let mut next = 0;
    let mut active: Vec<usize> = vec![];
    let mut out = vec![];
    for c in cuts.windows(2) {
        while next < starts.len() && starts[next].0 <= c[0] {
            active.push(starts[next].1);
            next += 1;
        }
        active.retain(|&i| live[i].x + live[i].w > c[0]);
        active.sort_unstable();
        let mut l: Vec<Style> = active.iter().map(|&i| live[i].style).collect();
        if let Some(k) = l.iter().rposition(|s| s.opacity == 1.0) {
            l.drain(..k);
        }
        out.push((c[0], c[1], l));
    }
    Ok(out)
}

pub fn check_svg_geometry(row: &[u8], height: u32, xdim: u32, fg: Rgba, bg: Rgba, svg: &Svg) -> R<()> {
    let x = xdim as u128;
    let w = row.len() as u128 * x;
    if (svg.w, svg.h) != (w, height as u128) {
        return Err(format!("viewBox is {} x {}, should be {w} x {height}", svg.w, svg.h));
    }
    if w == 0 || height == 0 {
        return Ok(());
    }
    for (a, b, layers) in paint(svg)? {
        // a stretch never crosses a change of layers; look at both of its ends and
        // at every module between them
        let first = (a / x) as usize;
        let last = ((b - 1) / x) as usize;
        for m in first..=last {
            let full: &[Rgba] = if row[m] == 1 { &[bg, fg] } else { &[bg] };
            let ok = |e: &[Rgba]| layers.len() == e.len() && layers.iter().zip(e).all(|(s, c)| style_is(s, *c));
            let top = layers.first().map_or(false, |s| s.opacity == 1.0);
            if !(ok(full) || (top && ok(&full[full.len() - 1..]))) {
                return Err(format!(
                    "x from {a} to {b} (module {m}, a {}) is painted with {:?}",
                    if row[m] == 1 { "bar" } else { "space" },
                    layers
                ));
            }
        }
    }
    Ok(())
}

/// Reads modules off a painted SVG with distinguishable opaque colours.
pub fn read_svg_row(svg: &Svg, xdim: u32, fg: Rgba, bg: Rgba) -> R<Vec<u8>> {
    let p = paint(svg)?;
    let x = xdim as u128;
    if svg.w % x != 0 {
        return Err("width is not a multiple of the x-dimension".into());
    }
    let mut k = 0;
    let mut row = vec![];
    for m in 0..svg.w / x {
        let mid = m * x + x / 2;
        while p[k].1 <= mid {
            k += 1;
        }
        let top = p[k].2.last().ok_or_else(|| format!("nothing painted at x {mid}"))?;
        row.push(if style_is(top, fg) {
            1
        } else if style_is(top, bg) {
            0
        } else {
            return Err(format!("colour {top:?} at x {mid}"));
        });
    }
    Ok(row)
}

// ---------------------------------------------------------------- raster

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Rot {
    R0,
    R90,
    R180,
    R270,
}
pub const ROTS: [Rot; 4] = [Rot::R0, Rot::R90, Rot::R180, Rot::R270];

pub struct Raster<'a> {
    pub row: &'a [u8],
    pub height: u32,
    pub xdim: u32,
    pub fg: Rgba,
    pub bg: Rgba,
    pub rot: Rot,
}

impl Raster<'_> {
    pub fn size(&self) -> (u64, u64) {
        let w = self.row.len() as u64 * self.xdim as u64;
        let h = self.height as u64;
        match self.rot {
            Rot::R0 | Rot::R180 => (w, h),
            _ => (h, w),
        }
    }
    /// Which column of the unrotated picture is seen at (x, y).
    fn source_x(&self, x: u64, y: u64) -> u64 {
        let w = self.row.len() as u64 * self.xdim as u64;
        match self.rot {
            Rot::R0 => x,
            Rot::R90 => y,
            Rot::R180 => w - 1 - x,
            Rot::R270 => w - 1 - y,
        }
    }
    pub fn pixel(&self, x: u64, y: u64) -> Rgba {
        if self.row[(self.source_x(x, y) / self.xdim as u64) as usize] == 1 {
            self.fg
        } else {
            self.bg
        }
    }
    /// Compares a picture given as tightly packed RGBA bytes. `same(got, want)`.
    pub fn compare(&self, w: u32, h: u32, data: &[u8], same: impl Fn(Rgba, Rgba) -> bool) -> R<()> {
        if (w as u64, h as u64) != self.size() {
            return Err(format!("picture is {w} x {h}, should be {:?}", self.size()));
        }
        if data.len() as u64 != w as u64 * h as u64 * 4 {
            return Err(format!("{} bytes of pixels for {w} x {h}", data.len()));
        }
        let mut i = 0;
        for y in 0..h as u64 {
            for x in 0..w as u64 {
                let got = [data[i], data[i + 1], data[i + 2], data[i + 3]];
                let want = self.pixel(x, y);
                if !same(got, want) {
                    return Err(format!("pixel ({x}, {y}) is {got:?}, should be {want:?} ({:?})", self.rot));
                }
                i += 4;
            }
        }
        Ok(())
    }
}

/// Turns a picture back and reads one module per x-dimension off every line.
pub fn read_raster(w: u32, h: u32, data: &[u8], xdim: u32, rot: Rot, is_fg: impl Fn(Rgba) -> Option<bool>) -> R<Vec<u8>> {
    let (w, h) = (w as usize, h as usize);
    let px = |x: usize, y: usize| {
        let i = (y * w + x) * 4;
        [data[i], data[i + 1], data[i + 2], data[i + 3]]
    };
    let (ow, oh) = match rot {
        Rot::R0 | Rot::R180 => (w, h),
        _ => (h, w),
    };
    // Where the pixel at (x, y) of the upright picture is in the turned one.
    let at = |x: usize, y: usize| match rot {
        Rot::R0 => px(x, y),
        Rot::R90 => px(oh - 1 - y, x),
        Rot::R180 => px(ow - 1 - x, oh - 1 - y),
        Rot::R270 => px(y, ow - 1 - x),
    };
    let xd = xdim as usize;
    if ow % xd != 0 || ow == 0 || oh == 0 {
        return Err(format!("upright picture is {ow} x {oh} with x-dimension {xd}"));
    }
    let mut row: Option<Vec<u8>> = None;
    for y in 0..oh {
        let mut r = vec![];
        for m in 0..ow / xd {
            let f = is_fg(at(m * xd, y)).ok_or_else(|| format!("strange colour {:?}", at(m * xd, y)))?;
            for p in 1..xd {
                if is_fg(at(m * xd + p, y)) != Some(f) {
                    return Err(format!("module {m} is not uniform on line {y}"));
                }
            }
            r.push(f as u8);
        }
        match &row {
            None => row = Some(r),
            Some(p) if *p != r => return Err(format!("line {y} differs from line 0")),
            _ => {}
        }
    }
    row.ok_or("no line".into())
}
