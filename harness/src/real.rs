//! Calls into the code under test. A panic in there is caught and is a failure of
//! the case; panics elsewhere are the harness's own and end the check as an error.

use crate::engine::Fail;
use crate::model::render::{Rgba, Rot};
use crate::model::sym::{Sym, E_CHAR, E_CHECK, E_LEN};
use barcoders::error::Error;
use barcoders::generators::{ascii, image as im, json, svg};
use barcoders::sym::{
    codabar::Codabar, code11::{Code11, USD8}, code128::Code128, code39::Code39, code93::Code93,
    ean13::{Bookland, EAN13, JAN}, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA,
};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.with(|g| g.get()) > 0 {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}"));
        } else {
            default(i);
        }
    }));
}

/// Runs code under test.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| Fail(format!("{what} panicked: {}", LAST.with(|l| l.borrow().clone()))))
}

pub const E_GEN: u8 = 8;
pub const E_OTHER: u8 = 128;

pub fn err_bit(e: Error) -> u8 {
    match e {
        Error::Length => E_LEN,
        Error::Character => E_CHAR,
        Error::Checksum => E_CHECK,
        Error::Generate => E_GEN,
        #[allow(unreachable_patterns)]
        _ => E_OTHER,
    }
}

pub enum Val {
    Ean13(EAN13),
    Ean8(EAN8),
    Upca(UPCA),
    Supp(EANSUPP),
    Code39(Code39),
    Code93(Code93),
    Code11(Code11),
    Code128(Code128),
    Codabar(Codabar),
    Tf(TF),
}

/// Constructor result for any text container.
pub fn new_raw<T: AsRef<str>>(sym: Sym, t: T) -> Result<Val, Error> {
    Ok(match sym {
        Sym::Ean13 => Val::Ean13(EAN13::new(t)?),
        Sym::Bookland => Val::Ean13(Bookland::new(t)?),
        Sym::Jan => Val::Ean13(JAN::new(t)?),
        Sym::Ean8 => Val::Ean8(EAN8::new(t)?),
        Sym::Upca => Val::Upca(UPCA::new(t)?),
        Sym::Supp => Val::Supp(EANSUPP::new(t)?),
        Sym::Code39 => Val::Code39(Code39::new(t)?),
        Sym::Code39Check => Val::Code39(Code39::with_checksum(t)?),
        Sym::Code93 => Val::Code93(Code93::new(t)?),
        Sym::Code11 => Val::Code11(Code11::new(t)?),
        Sym::Usd8 => Val::Code11(USD8::new(t)?),
        Sym::Code128 => Val::Code128(Code128::new(t)?),
        Sym::Codabar => Val::Codabar(Codabar::new(t)?),
        Sym::Itf => Val::Tf(TF::interleaved(t)?),
        Sym::Stf => Val::Tf(TF::standard(t)?),
    })
}

impl Val {
    pub fn encode_raw(&self) -> Vec<u8> {
        match self {
            Val::Ean13(v) => v.encode(),
            Val::Ean8(v) => v.encode(),
            Val::Upca(v) => v.encode(),
            Val::Supp(v) => v.encode(),
            Val::Code39(v) => v.encode(),
            Val::Code93(v) => v.encode(),
            Val::Code11(v) => v.encode(),
            Val::Code128(v) => v.encode(),
            Val::Codabar(v) => v.encode(),
            Val::Tf(v) => v.encode(),
        }
    }
}

/// A value used by reference in several threads, where its type allows that.
struct Lent<'a, T>(&'a T);
type Rows = Vec<Result<Vec<u8>, Fail>>;

trait Lend<T> {
    fn rows(&self, encode: fn(&T) -> Vec<u8>, threads: usize, rounds: usize) -> Option<Rows>;
}
impl<T: Sync> Lend<T> for Lent<'_, T> {
    fn rows(&self, encode: fn(&T) -> Vec<u8>, threads: usize, rounds: usize) -> Option<Rows> {
        let v = self.0;
        let barrier = &std::sync::Barrier::new(threads);
        let all: Vec<Rows> = std::thread::scope(|sc| {
            let work = || {
                barrier.wait();
                (0..rounds).map(|_| guard("encode", || encode(v))).collect()
            };
            let hs: Vec<_> = (0..threads).map(|_| sc.spawn(work)).collect();
            hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
        });
        Some(all.into_iter().flatten().collect())
    }
}
#[allow(dead_code)]
trait Keep<T> {
    fn rows(&self, _encode: fn(&T) -> Vec<u8>, _threads: usize, _rounds: usize) -> Option<Rows> {
        None
    }
}
impl<T> Keep<T> for &Lent<'_, T> {}

impl Val {
    /// Encodes in several threads at once from the one value; None if its type is not
    /// to be shared.
    pub fn encode_shared(&self, n: usize, k: usize) -> Option<Rows> {
        match self {
            Val::Ean13(v) => (&Lent(v)).rows(EAN13::encode, n, k),
            Val::Ean8(v) => (&Lent(v)).rows(EAN8::encode, n, k),
            Val::Upca(v) => (&Lent(v)).rows(UPCA::encode, n, k),
            Val::Supp(v) => (&Lent(v)).rows(EANSUPP::encode, n, k),
            Val::Code39(v) => (&Lent(v)).rows(Code39::encode, n, k),
            Val::Code93(v) => (&Lent(v)).rows(Code93::encode, n, k),
            Val::Code11(v) => (&Lent(v)).rows(Code11::encode, n, k),
            Val::Code128(v) => (&Lent(v)).rows(Code128::encode, n, k),
            Val::Codabar(v) => (&Lent(v)).rows(Codabar::encode, n, k),
            Val::Tf(v) => (&Lent(v)).rows(TF::encode, n, k),
        }
    }
}

/// Construct; the error as a bit.
pub fn new(sym: Sym, text: &str) -> Result<Result<Val, u8>, Fail> {
    guard("the constructor", || new_raw(sym, text)).map(|r| r.map_err(err_bit))
}

/// Construct and encode accepted text; refusal is a failure.
pub fn must_encode(sym: Sym, text: &str) -> Result<Vec<u8>, Fail> {
    match new(sym, text)? {
        Ok(v) => guard("encode", || v.encode_raw()),
        Err(e) => Err(Fail(format!(
            "{} refuses {:?} (error {}), which is valid data",
            sym.name(),
            text,
            bit_name(e)
        ))),
    }
}

pub fn bit_name(b: u8) -> &'static str {
    match b {
        E_LEN => "Length",
        E_CHAR => "Character",
        E_CHECK => "Checksum",
        E_GEN => "Generate",
        _ => "unknown",
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Fmt {
    Gif,
    Png,
    Webp,
    Buf,
}
pub const FMTS: [Fmt; 4] = [Fmt::Gif, Fmt::Png, Fmt::Webp, Fmt::Buf];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct ImgCfg {
    pub fmt: Fmt,
    pub height: u32,
    pub xdim: u32,
    pub rot: Rot,
    pub fg: Rgba,
    pub bg: Rgba,
}

pub fn rotation(r: Rot) -> im::Rotation {
    match r {
        Rot::R0 => im::Rotation::Zero,
        Rot::R90 => im::Rotation::Ninety,
        Rot::R180 => im::Rotation::OneEighty,
        Rot::R270 => im::Rotation::TwoSeventy,
    }
}

impl ImgCfg {
    pub fn image(&self) -> im::Image {
        let (height, xdim, rotation) = (self.height, self.xdim, rotation(self.rot));
        let (foreground, background) = (im::Color::new(self.fg), im::Color::new(self.bg));
        match self.fmt {
            Fmt::Gif => im::Image::GIF { height, xdim, rotation, foreground, background },
            Fmt::Png => im::Image::PNG { height, xdim, rotation, foreground, background },
            Fmt::Webp => im::Image::WEBP { height, xdim, rotation, foreground, background },
            Fmt::Buf => im::Image::ImageBuffer { height, xdim, rotation, foreground, background },
        }
    }
}

pub struct Pic {
    pub w: u32,
    pub h: u32,
    pub px: Vec<u8>,
}

pub fn buffer(c: &ImgCfg, row: &[u8]) -> Result<Result<Pic, u8>, Fail> {
    guard("generate_buffer", || {
        c.image()
            .generate_buffer(row)
            .map(|b| Pic { w: b.width(), h: b.height(), px: b.into_raw() })
            .map_err(err_bit)
    })
}

pub fn file(c: &ImgCfg, row: &[u8]) -> Result<Result<Vec<u8>, u8>, Fail> {
    guard("generate", || c.image().generate(row).map_err(err_bit))
}

pub fn ascii(row: &[u8], height: usize, xdim: usize) -> Result<String, Fail> {
    guard("ASCII generate", || ascii::ASCII { height, xdim }.generate(row))?
        .map_err(|e| Fail(format!("ASCII generate fails with {e:?}")))
}

pub fn json(row: &[u8], height: usize, xdim: usize) -> Result<String, Fail> {
    guard("JSON generate", || json::JSON { height, xdim }.generate(row))?
        .map_err(|e| Fail(format!("JSON generate fails with {e:?}")))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct SvgCfg {
    pub height: u32,
    pub xdim: u32,
    pub fg: Rgba,
    pub bg: Rgba,
    pub xmlns: Option<String>,
}

impl SvgCfg {
    pub fn svg(&self) -> svg::SVG {
        svg::SVG {
            height: self.height,
            xdim: self.xdim,
            foreground: svg::Color::new(self.fg),
            background: svg::Color::new(self.bg),
            xmlns: self.xmlns.clone(),
        }
    }
}

pub fn svg(c: &SvgCfg, row: &[u8]) -> Result<String, Fail> {
    let s = c.svg();
    guard("SVG generate", || s.generate(row))?.map_err(|e| Fail(format!("SVG generate fails with {e:?}")))
}

/// The image crate's WebP decoder reads a side of exactly 16384 (the format's largest)
/// as 0 when the file is a bare lossless frame, though not when the same frame lies in an
/// extended container. Such a file is given to it in that container.
fn webp_for_decoder(bytes: &[u8]) -> Vec<u8> {
    let plain = bytes.len() > 25 && &bytes[..4] == b"RIFF" && &bytes[8..16] == b"WEBPVP8L" && bytes[20] == 0x2f;
    if !plain {
        return bytes.to_vec();
    }
    let h = u32::from_le_bytes(bytes[21..25].try_into().unwrap());
    let (w1, h1) = (h & 0x3fff, h >> 14 & 0x3fff);
    if w1 != 0x3fff && h1 != 0x3fff {
        return bytes.to_vec();
    }
    let mut v = b"RIFF".to_vec();
    v.extend((bytes.len() as u32 - 8 + 18).to_le_bytes());
    v.extend(b"WEBPVP8X");
    v.extend(10u32.to_le_bytes());
    v.extend([if h >> 28 & 1 == 1 { 0x10 } else { 0 }, 0, 0, 0]);
    v.extend(&w1.to_le_bytes()[..3]);
    v.extend(&h1.to_le_bytes()[..3]);
    v.extend(&bytes[12..]);
    v
}

/// Decodes a file with the image crate's decoder of exactly that format.
pub fn decode_file(fmt: Fmt, bytes: &[u8]) -> Result<Pic, Fail> {
    use image::ImageFormat as F;
    let webp;
    let (f, bytes) = match fmt {
        Fmt::Gif => (F::Gif, bytes),
        Fmt::Png => (F::Png, bytes),
        Fmt::Webp => {
            webp = webp_for_decoder(bytes);
            (F::WebP, &webp[..])
        }
        Fmt::Buf => return Err("no file format".into()),
    };
    // a decoder that panics on what it is given cannot decode it
    let i = guard("the decoder", || image::load_from_memory_with_format(bytes, f))?
        .map_err(|e| Fail(format!("the {fmt:?} file does not decode: {e}")))?
        .to_rgba8();
    Ok(Pic { w: i.width(), h: i.height(), px: i.into_raw() })
}
