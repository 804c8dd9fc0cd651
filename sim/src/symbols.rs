//! Which bars and modules a barcode or symbol has. The encoders themselves are libraries the
//! engine depends on; the simulator calls the same libraries, so it decides when, where and
//! with which data a symbol is printed, not whether the libraries encode it correctly.

use barcoders::sym::codabar::Codabar;
use barcoders::sym::code128::Code128;
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::ean13::{ENCODINGS, EAN13, LEFT_GUARD, MIDDLE_GUARD, UPCA};
use barcoders::sym::ean8::EAN8;
use barcoders::sym::tf::TF;
use qr_code::{bits::Bits, EcLevel, QrCode, Version};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Bytes each version of a QR code holds at the lowest error correction.
const CAPACITY: [usize; 40] = [
    17, 32, 53, 78, 106, 134, 154, 192, 230, 271, 321, 367, 425, 458, 520, 586, 644, 718, 792, 858, 929, 1003, 1091,
    1171, 1273, 1367, 1465, 1528, 1628, 1732, 1840, 1952, 2068, 2188, 2303, 2431, 2563, 2699, 2809, 2953,
];

pub fn qr(model: u8, ec: u8, data: &[u8]) -> Option<(Vec<bool>, usize)> {
    let max = match model {
        1 => 14,
        2 => 40,
        _ => 4,
    };
    let ec = [EcLevel::L, EcLevel::M, EcLevel::Q, EcLevel::H][ec as usize];
    let min = (1..=max).find(|v| CAPACITY[*v as usize - 1] >= data.len()).unwrap_or(max);
    (min..=max).find_map(|v| {
        let version = if model == 3 { Version::Micro(v) } else { Version::Normal(v) };
        // The library cannot end micro symbols in their last half byte: all that is left there is zeros.
        let code = match catch_unwind(AssertUnwindSafe(|| QrCode::with_version(data, version, ec))) {
            Ok(code) => code.ok()?,
            Err(_) => {
                let mut bits = Bits::new(version);
                bits.push_optimal_data(data).ok()?;
                while bits.len() < bits.max_len(ec).ok()? {
                    bits.push_number_checked(1, 0).ok()?;
                }
                QrCode::with_bits(bits, ec).ok()?
            }
        };
        Some((code.to_vec(), code.width()))
    })
}

/// The bars of a barcode and what a person reads beside it.
pub fn barcode(m: u8, data: &[u8]) -> Option<(Vec<bool>, String)> {
    let text = std::str::from_utf8(data).unwrap_or("");
    let len = text.len();
    if len > 255 {
        return None;
    }
    let bars: Option<Vec<u8>> = catch_unwind(AssertUnwindSafe(|| match m {
        0 | 65 if matches!(len, 11 | 12) => UPCA::new(text).ok().map(|b| b.encode()),
        1 | 66 => upce(text),
        2 | 67 if matches!(len, 12 | 13) => EAN13::new(text.get(..12)?).ok().map(|b| b.encode()),
        3 | 68 if matches!(len, 7 | 8) => EAN8::new(text).ok().map(|b| b.encode()),
        4 | 69 if len > 0 => Code39::new(text.replace('*', "")).ok().map(|b| b.encode()),
        5 | 70 if len > 2 => TF::interleaved(text).ok().map(|b| b.encode()),
        6 | 71 if len > 2 => Codabar::new(text).ok().map(|b| b.encode()),
        72 if len > 0 => Code93::new(text).ok().map(|b| b.encode()),
        73 if len > 1 => {
            let t = text.replace("{A", "À").replace("{B", "Ɓ").replace("{C", "Ć");
            Code128::new(t).ok().map(|b| b.encode())
        }
        _ => None,
    }))
    .unwrap_or(None);
    let seen = match m {
        73 => text.replace("{A", "").replace("{B", "").replace("{C", ""),
        _ => text.to_string(),
    };
    Some((bars?.iter().map(|b| *b > 0).collect(), seen))
}

fn check_digit(d: &[u8]) -> u8 {
    let sum: u32 = d.iter().enumerate().map(|(i, v)| *v as u32 * if i % 2 == 0 { 3 } else { 1 }).sum();
    ((10 - sum % 10) % 10) as u8
}

fn upce(text: &str) -> Option<Vec<u8>> {
    if !text.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let d: Vec<u8> = text.bytes().map(|b| b - b'0').collect();
    let long = match d.len() {
        6 => expand(&[&[0], &d[..]].concat()),
        7 | 8 => expand(&d),
        11 => [&d[..], &[check_digit(&d)]].concat(),
        12 => d,
        _ => return None,
    };
    let e = compress(&long)?;
    const PARITY: [[u8; 6]; 10] = [
        [1, 1, 1, 0, 0, 0],
        [1, 1, 0, 1, 0, 0],
        [1, 1, 0, 0, 1, 0],
        [1, 1, 0, 0, 0, 1],
        [1, 0, 1, 1, 0, 0],
        [1, 0, 0, 1, 1, 0],
        [1, 0, 0, 0, 1, 1],
        [1, 0, 1, 0, 1, 0],
        [1, 0, 1, 0, 0, 1],
        [1, 0, 0, 1, 0, 1],
    ];
    let mut out: Vec<u8> = LEFT_GUARD.to_vec();
    for (digit, side) in e[1..7].iter().zip(PARITY[e[7] as usize]) {
        let side = side ^ e[0];
        out.extend_from_slice(&ENCODINGS[side as usize][*digit as usize]);
    }
    out.extend_from_slice(&MIDDLE_GUARD);
    out.push(1);
    Some(out)
}

/// 7 or 8 digits to 12
fn expand(e: &[u8]) -> Vec<u8> {
    let mut a = vec![e[0], e[1], e[2]];
    match e[6] {
        0..=2 => a.extend([e[6], 0, 0, 0, 0, e[3], e[4], e[5]]),
        3 => a.extend([e[3], 0, 0, 0, 0, 0, e[4], e[5]]),
        4 => a.extend([e[3], e[4], 0, 0, 0, 0, 0, e[5]]),
        _ => a.extend([e[3], e[4], e[5], 0, 0, 0, 0, e[6]]),
    }
    let check = e.get(7).copied().unwrap_or_else(|| check_digit(&a));
    a.push(check);
    a
}

/// 12 digits to number system, six digits and check digit
fn compress(a: &[u8]) -> Option<[u8; 8]> {
    let (m, p, check) = (&a[1..6], &a[6..11], a[11]);
    if a[0] > 1 {
        return None;
    }
    let six = if m[3..] == [0, 0] {
        if p[0] != 0 && p[1] != 0 {
            return None;
        }
        if m[2] <= 2 {
            [m[0], m[1], p[2], p[3], p[4], m[2]]
        } else {
            [m[0], m[1], m[2], p[3], p[4], 3]
        }
    } else if m[4] == 0 {
        if p[..4].iter().all(|d| *d != 0) {
            return None;
        }
        [m[0], m[1], m[2], m[3], p[4], 4]
    } else {
        if p[..4].iter().any(|d| *d != 0) || p[4] < 5 {
            return None;
        }
        [m[0], m[1], m[2], m[3], m[4], p[4]]
    };
    Some([a[0], six[0], six[1], six[2], six[3], six[4], six[5], check])
}
