//! Published symbology tables, written as bit masks or element widths (never as
//! module rows) so that they share no representation with the code under test.

/// EAN left-hand odd (set A): space, bar, space, bar widths.
pub const EAN_WIDTHS: [[u8; 4]; 10] = [
    [3, 2, 1, 1],
    [2, 2, 2, 1],
    [2, 1, 2, 2],
    [1, 4, 1, 1],
    [1, 1, 3, 2],
    [1, 2, 3, 1],
    [1, 1, 1, 4],
    [1, 3, 1, 2],
    [1, 2, 1, 3],
    [3, 1, 1, 2],
];

/// First EAN-13 digit -> parity of the six left digits, 1 = even set (B/G).
/// Bit 5 is the leftmost digit.
pub const EAN13_FIRST: [u8; 10] = [
    0b000000, 0b001011, 0b001101, 0b001110, 0b010011, 0b011001, 0b011100, 0b010101, 0b010110,
    0b011010,
];

/// EAN-5 check value -> parity of the five digits, 1 = even set. Bit 4 leftmost.
pub const EAN5_CHECK: [u8; 10] = [
    0b11000, 0b10100, 0b10010, 0b10001, 0b01100, 0b00110, 0b00011, 0b01010, 0b01001, 0b00101,
];

/// Code 39, 9 elements bar/space alternating, bit 8 first, 1 = wide.
pub const CODE39_ALPHABET: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
pub const CODE39_MASK: [u16; 43] = [
    0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, // 0-9
    0x109, 0x049, 0x148, 0x019, 0x118, 0x058, 0x00D, 0x10C, 0x04C, 0x01C, // A-J
    0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106, 0x046, 0x016, // K-T
    0x181, 0x0C1, 0x1C0, 0x091, 0x190, 0x0D0, // U-Z
    0x085, 0x184, 0x0C4, 0x0A8, 0x0A2, 0x08A, 0x02A, // - . space $ / + %
];
pub const CODE39_STAR: u16 = 0x094;

/// Code 93, 9 modules, bit 8 first. The four shift characters ($) (%) (/) (+)
/// are written ( ) [ ] by this library.
pub const CODE93_ALPHABET: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
pub const CODE93_MASK: [u16; 47] = [
    0x114, 0x148, 0x144, 0x142, 0x128, 0x124, 0x122, 0x150, 0x112, 0x10A, // 0-9
    0x1A8, 0x1A4, 0x1A2, 0x194, 0x192, 0x18A, 0x168, 0x164, 0x162, 0x134, // A-J
    0x11A, 0x158, 0x14C, 0x146, 0x12C, 0x116, 0x1B4, 0x1B2, 0x1AC, 0x1A6, // K-T
    0x196, 0x19A, 0x16C, 0x166, 0x136, 0x13A, // U-Z
    0x12E, 0x1D4, 0x1D2, 0x1CA, 0x16E, 0x176, 0x1AE, // - . space $ / + %
    0x126, 0x1DA, 0x1D6, 0x132, // ($) (%) (/) (+)
];
pub const CODE93_STAR: u16 = 0x15E;

/// Code 11, 5 elements, bit 4 first, 1 = wide.
pub const CODE11_ALPHABET: &str = "0123456789-";
pub const CODE11_MASK: [u8; 11] = [
    0b00001, 0b10001, 0b01001, 0b11000, 0b00101, 0b10100, 0b01100, 0b00011, 0b10010, 0b10000,
    0b00100,
];
pub const CODE11_STAR: u8 = 0b00110;

/// Codabar, 7 elements, bit 6 first, 1 = wide.
pub const CODABAR_ALPHABET: &str = "0123456789-$:/.+ABCD";
pub const CODABAR_MASK: [u8; 20] = [
    0x03, 0x06, 0x09, 0x60, 0x12, 0x42, 0x21, 0x24, 0x30, 0x48, // 0-9
    0x0C, 0x18, 0x45, 0x51, 0x54, 0x15, // - $ : / . +
    0x1A, 0x29, 0x0B, 0x0E, // A B C D
];

/// Code 128: element widths bar, space, bar, space, bar, space.
pub const CODE128_WIDTHS: [u32; 106] = [
    212222, 222122, 222221, 121223, 121322, 131222, 122213, 122312, 132212, 221213, 221312, 231212,
    112232, 122132, 122231, 113222, 123122, 123221, 223211, 221132, 221231, 213212, 223112, 312131,
    311222, 321122, 321221, 312212, 322112, 322211, 212123, 212321, 232121, 111323, 131123, 131321,
    112313, 132113, 132311, 211313, 231113, 231311, 112133, 112331, 132131, 113123, 113321, 133121,
    313121, 211331, 231131, 213113, 213311, 213131, 311123, 311321, 331121, 312113, 312311, 332111,
    314111, 221411, 431111, 111224, 111422, 121124, 121421, 141122, 141221, 112214, 112412, 122114,
    122411, 142112, 142211, 241211, 221114, 413111, 241112, 134111, 111242, 121142, 121241, 114212,
    124112, 124211, 411212, 421112, 421211, 212141, 214121, 412121, 111143, 111341, 131141, 114113,
    114311, 411113, 411311, 113141, 114131, 311141, 411131, 211412, 211214, 211232,
];
/// Stop symbol with its final bar.
pub const CODE128_STOP: u32 = 2331112;

/// 2-of-5: the two wide elements of a digit are those whose weights
/// (1, 2, 4, 7, parity) spell it; zero is 4 + 7.
pub fn two_of_five(d: u8) -> [bool; 5] {
    const W: [u8; 4] = [1, 2, 4, 7];
    if d == 0 {
        return [false, false, true, true, false];
    }
    if let Some(i) = W.iter().position(|&w| w == d) {
        let mut r = [false; 5];
        r[i] = true;
        r[4] = true;
        return r;
    }
    for i in 0..4 {
        for j in i + 1..4 {
            if W[i] + W[j] == d {
                let mut r = [false; 5];
                r[i] = true;
                r[j] = true;
                return r;
            }
        }
    }
    unreachable!("digit {d}")
}

#[cfg(test)]
mod tests {
    use super::*;
    use std::collections::HashSet;

    #[test]
    fn structure() {
        for w in EAN_WIDTHS {
            assert_eq!(w.iter().sum::<u8>(), 7);
            assert_eq!((w[1] + w[3]) % 2, 1);
        }
        let s: HashSet<_> = EAN_WIDTHS
            .iter()
            .flat_map(|w| [w.to_vec(), w.iter().rev().copied().collect::<Vec<_>>()])
            .collect();
        assert_eq!(s.len(), 20);
        // Code 39: three wide of nine, 44 distinct.
        let mut s = HashSet::from([CODE39_STAR]);
        assert_eq!(CODE39_STAR.count_ones(), 3);
        for m in CODE39_MASK {
            assert_eq!(m.count_ones(), 3);
            assert!(s.insert(m));
        }
        // Code 93: starts with a bar, ends with a space, 3 bars; all 48 distinct.
        let mut s = HashSet::from([CODE93_STAR]);
        for m in CODE93_MASK {
            assert!(m & 0x100 != 0 && m & 1 == 0);
            let runs = (0..8).filter(|i| (m >> i) & 1 != (m >> (i + 1)) & 1).count() + 1;
            assert_eq!(runs, 6);
            assert!(s.insert(m));
        }
        let s: HashSet<_> = CODE11_MASK.iter().chain([&CODE11_STAR]).collect();
        assert_eq!(s.len(), 12);
        let mut s = HashSet::new();
        for m in CODABAR_MASK {
            assert!(matches!(m.count_ones(), 2 | 3));
            assert!(s.insert(m));
        }
        // Code 128: 11 modules, even number of bar modules, distinct.
        let mut s = HashSet::new();
        for w in CODE128_WIDTHS {
            let d: Vec<u32> = format!("{w}").bytes().map(|b| (b - b'0') as u32).collect();
            assert_eq!(d.len(), 6);
            assert_eq!(d.iter().sum::<u32>(), 11);
            assert_eq!((d[0] + d[2] + d[4]) % 2, 0);
            assert!(d.iter().all(|&x| (1..=4).contains(&x)));
            assert!(s.insert(w));
        }
        let s: HashSet<_> = (0..10).map(two_of_five).collect();
        assert_eq!(s.len(), 10);
        assert_eq!(CODE39_ALPHABET.len(), 43);
        assert_eq!(CODE93_ALPHABET.len(), 47);
        assert_eq!(CODABAR_ALPHABET.len(), 20);
    }
}
