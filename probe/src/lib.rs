//! Names the public items of every enabled feature of barcoders and runs requests
//! against them; built once per configuration.
use barcoders::error::{Error, Result};
use barcoders::sym::{
    codabar::Codabar, code11::{Code11, USD8}, code128::Code128, code39::Code39, code93::Code93,
    ean13::{Bookland, EAN13, JAN}, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA,
};

#[cfg(all(feature = "image", feature = "std"))]
fn image(kind: &str, row: &[u8], height: u32, xdim: u32, turns: &str, fg: [u8; 4], bg: [u8; 4]) -> Result<Vec<u8>> {
    use barcoders::generators::image::{Color, Image, Rotation};
    let _ = (Color::black(), Color::white());
    if (xdim, turns, fg, bg) == (1, "0", [0, 0, 0, 255], [255; 4]) {
        // the defaults
        let of = [Image::png, Image::gif, Image::webp, Image::image_buffer];
        let i = of[kind.parse::<usize>().unwrap()](height);
        return if kind == "3" { i.generate_buffer(row).map(|b| b.into_raw()) } else { i.generate(row) };
    }
    let rotation = match turns {
        "0" => Rotation::Zero,
        "1" => Rotation::Ninety,
        "2" => Rotation::OneEighty,
        _ => Rotation::TwoSeventy,
    };
    let (foreground, background) = (Color::new(fg), Color::new(bg));
    match kind {
        "0" => Image::PNG { height, xdim, rotation, foreground, background }.generate(row),
        "1" => Image::GIF { height, xdim, rotation, foreground, background }.generate(row),
        "2" => Image::WEBP { height, xdim, rotation, foreground, background }.generate(row),
        _ => Image::ImageBuffer { height, xdim, rotation, foreground, background }.generate_buffer(row).map(|b| {
            let mut v = [b.width().to_be_bytes(), b.height().to_be_bytes()].concat();
            v.extend(b.into_raw());
            v
        }),
    }
}

#[cfg(feature = "std")]
pub fn is_std_error(e: Error) -> Box<dyn std::error::Error> {
    Box::new(e)
}

fn shows<T: core::fmt::Debug>() {}
fn copies<T: Copy + core::fmt::Debug>() {}
fn clones<T: Clone + core::fmt::Debug>() {}

/// What the types of every configuration can do.
pub fn abilities() {
    copies::<Error>();
    shows::<EAN13>();
    shows::<EAN8>();
    shows::<UPCA>();
    shows::<EANSUPP>();
    shows::<Code39>();
    shows::<Code93>();
    shows::<Code11>();
    shows::<Code128>();
    shows::<Codabar>();
    shows::<TF>();
    #[cfg(feature = "ascii")]
    copies::<barcoders::generators::ascii::ASCII>();
    #[cfg(feature = "json")]
    copies::<barcoders::generators::json::JSON>();
    #[cfg(feature = "svg")]
    {
        copies::<barcoders::generators::svg::Color>();
        clones::<barcoders::generators::svg::SVG>();
    }
    #[cfg(all(feature = "image", feature = "std"))]
    {
        copies::<barcoders::generators::image::Color>();
        copies::<barcoders::generators::image::Rotation>();
        copies::<barcoders::generators::image::Image>();
    }
}

/// The public tables, one after the other.
fn tables() -> Vec<u8> {
    use barcoders::sym::{ean13, upca};
    let mut v = vec![];
    ean13::ENCODINGS.iter().flatten().for_each(|p| v.extend(p));
    upca::ENCODINGS.iter().flatten().for_each(|p| v.extend(p));
    for g in [ean13::LEFT_GUARD, ean13::RIGHT_GUARD, upca::LEFT_GUARD, upca::RIGHT_GUARD] {
        v.extend(g);
    }
    v.extend(ean13::MIDDLE_GUARD);
    v.extend(upca::MIDDLE_GUARD);
    v
}

fn encode(sym: &str, t: &str) -> Result<Vec<u8>> {
    Ok(match sym {
        "ean13" => EAN13::new(t)?.encode(),
        "bookland" => Bookland::new(t)?.encode(),
        "jan" => JAN::new(t)?.encode(),
        "ean8" => EAN8::new(t)?.encode(),
        "upca" => UPCA::new(t)?.encode(),
        "supp" => EANSUPP::new(t)?.encode(),
        "code39" => Code39::new(t)?.encode(),
        "code39check" => Code39::with_checksum(t)?.encode(),
        "code93" => Code93::new(t)?.encode(),
        "code11" => Code11::new(t)?.encode(),
        "usd8" => USD8::new(t)?.encode(),
        "code128" => Code128::new(t)?.encode(),
        "codabar" => Codabar::new(t)?.encode(),
        "itf" => TF::interleaved(t)?.encode(),
        "stf" => TF::standard(t)?.encode(),
        _ => panic!("unknown symbology {sym}"),
    })
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// One request: `t`, `e sym text`, `a row height xdim`, `j row height xdim`,
/// `s row height xdim fg bg xmlns`, `i kind row height xdim turns fg bg`; text, rows, colours in hex, `-` for none.
/// None where this configuration lacks the generator.
pub fn run(line: &str) -> Option<Result<Vec<u8>>> {
    let f: Vec<&str> = line.split(' ').collect();
    let bytes = |i: usize| if f[i] == "-" { vec![] } else { unhex(f[i]) };
    match f[0] {
        "t" => Some(Ok(tables())),
        "e" => Some(encode(f[1], &String::from_utf8(bytes(2)).unwrap())),
        #[cfg(feature = "ascii")]
        "a" => {
            use barcoders::generators::ascii::ASCII;
            let a = ASCII { height: f[2].parse().unwrap(), xdim: f[3].parse().unwrap() };
            let mut all = vec![a];
            if (f[2], f[3]) == ("10", "1") {
                all.extend([ASCII::new(), ASCII::default()]);
            }
            Some(all.iter().map(|a| a.generate(bytes(1)).map(String::into_bytes)).collect::<Result<Vec<_>>>().map(|v| v.concat()))
        }
        #[cfg(feature = "json")]
        "j" => {
            use barcoders::generators::json::JSON;
            let a = JSON { height: f[2].parse().unwrap(), xdim: f[3].parse().unwrap() };
            let mut all = vec![a];
            if (f[2], f[3]) == ("10", "1") {
                all.extend([JSON::new(), JSON::default()]);
            }
            Some(all.iter().map(|a| a.generate(bytes(1)).map(String::into_bytes)).collect::<Result<Vec<_>>>().map(|v| v.concat()))
        }
        #[cfg(feature = "svg")]
        "s" => {
            use barcoders::generators::svg::{Color, SVG};
            let c = |i: usize| Color::new(<[u8; 4]>::try_from(&bytes(i)[..]).unwrap());
            let mut s = SVG::new(f[2].parse().unwrap());
            // what is asked for by default is left to the defaults
            if f[3] != "1" {
                s = s.xdim(f[3].parse().unwrap());
            }
            if f[4] != "000000ff" {
                s = s.foreground(c(4));
            }
            if f[5] != "ffffffff" {
                s = s.background(c(5));
            }
            if f[6] != "-" {
                s = s.xmlns(String::from_utf8(unhex(&f[6][1..])).unwrap());
            }
            let _ = (Color::black(), Color::white());
            Some(s.generate(bytes(1)).map(String::into_bytes))
        }
        #[cfg(all(feature = "image", feature = "std"))]
        "i" => {
            let c = |i: usize| <[u8; 4]>::try_from(&bytes(i)[..]).unwrap();
            Some(image(f[1], &bytes(2), f[3].parse().unwrap(), f[4].parse().unwrap(), f[5], c(6), c(7)))
        }
        "a" | "j" | "s" | "i" => None,
        k => panic!("unknown request {k}"),
    }
}

pub fn name(e: Error) -> String {
    format!("{e:?}: {e}")
}
