//! What hosts send: jobs made of printer commands, drawn from families a run switches on or off.

use crate::rng::Rng;
use crate::scenario::Op;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    Text,
    Feed,
    Tabs,
    Style,
    Charset,
    Color,
    Layout,
    Move,
    Cut,
    Bar,
    BarSet,
    Qr,
    Symbols,
    Bits,
    Raster,
    Nv,
    Download,
    Buffer,
    Page,
    PageOp,
    Init,
    Status,
    Unknown,
    Form,
    Density,
    Announce,
    /// a piece of a real receipt
    Sample,
}
use Fam::*;

pub const ALL: &[(Fam, usize)] = &[
    (Text, 12),
    (Feed, 6),
    (Tabs, 2),
    (Style, 6),
    (Charset, 3),
    (Color, 3),
    (Layout, 3),
    (Move, 4),
    (Cut, 1),
    (Bar, 3),
    (BarSet, 2),
    (Qr, 3),
    (Symbols, 1),
    (Bits, 2),
    (Raster, 2),
    (Nv, 3),
    (Download, 3),
    (Buffer, 2),
    (Page, 2),
    (PageOp, 2),
    (Init, 1),
    (Status, 1),
    (Unknown, 2),
    (Form, 1),
    (Density, 1),
];

/// A subset of the families, with other weights.
pub fn swarm(r: &mut Rng, from: &[(Fam, usize)], keep: &[Fam]) -> Vec<(Fam, usize)> {
    let mut v: Vec<(Fam, usize)> = from
        .iter()
        .filter(|(f, _)| keep.contains(f) || r.chance(3, 5))
        .map(|(f, w)| (*f, *w))
        .collect::<Vec<_>>();
    for e in v.iter_mut() {
        e.1 = (e.1 * r.range(1, 4)).max(1);
    }
    if v.is_empty() {
        v.push(from[0]);
    }
    v
}

pub fn ops(r: &mut Rng, fams: &[(Fam, usize)], n: usize) -> Vec<Op> {
    let total: usize = fams.iter().map(|f| f.1).sum();
    let mut out = vec![];
    while out.len() < n {
        let mut k = r.below(total);
        for (f, w) in fams {
            if k < *w {
                family(r, *f, fams, &mut out);
                break;
            }
            k -= w;
        }
        if r.is_extreme() && r.chance(1, 24) {
            burst(r, &mut out);
        }
    }
    out
}

/// The last few commands over and over. (Symbols draw many dots for few bytes.)
fn burst(r: &mut Rng, out: &mut Vec<Op>) {
    let n = r.range(1, 4).min(out.len());
    let l: Vec<Op> = out[out.len() - n..].to_vec();
    if l.iter().any(|o| matches!(o.label, "qr-print" | "sample" | "announce") || o.bytes.len() > 300) {
        return;
    }
    for _ in 0..r.range(10, 70) {
        out.extend(l.iter().cloned());
    }
}

/// Small graphics under many keys, some of which are printed.
fn many_graphics(r: &mut Rng, nv: bool, out: &mut Vec<Op>) {
    let n = r.range(10, 80);
    let (a, b) = (r.byte(), r.byte());
    let print = if nv { 69 } else { 85 };
    for i in 0..n {
        let f = *r.pick(if nv { &[67, 68] } else { &[83, 84] });
        let k = [a.wrapping_add((i % 3) as u8), b.wrapping_add(i as u8)];
        let d = [48, k[0], k[1], 1, 8, 0, 8, 0, 49, i as u8, r.byte(), 0, 0xff, 1, 2, 3, 4];
        out.push(Op::new(if nv { "define-nv" } else { "define" }, gs_l(r, f, &d)));
    }
    for _ in 0..r.range(3, 12) {
        let i = r.below(n);
        let d = [a.wrapping_add((i % 3) as u8), b.wrapping_add(i as u8), 1, 1];
        out.push(Op::new(if nv { "print-nv" } else { "print-graphic" }, gs_l(r, print, &d)));
    }
}

fn u16le(v: usize) -> [u8; 2] {
    [v as u8, (v >> 8) as u8]
}

/// A parameter: mostly a value that means something.
fn par(r: &mut Rng, good: &[u8]) -> u8 {
    if r.is_extreme() && r.chance(1, 2) {
        return *r.pick(&[0, 1, 127, 128, 129, 200, 254, 255, 255]);
    }
    match r.below(20) {
        0..=16 => *r.pick(good),
        17 => r.pick(good).wrapping_add(1),
        18 => *r.pick(&[0, 1, 2, 3, 127, 128, 254, 255]),
        _ => r.byte(),
    }
}

pub fn text(r: &mut Rng) -> Vec<u8> {
    let mut t = vec![];
    for _ in 0..r.range(1, 5) {
        match r.below(14) {
            0..=4 => {
                for _ in 0..r.range(1, 9) {
                    t.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEXYZ0123456789.,-$#@[]{}|~^`'\"\\"));
                }
                t.push(b' ');
            }
            5 => t.extend(*r.pick(&[
                &b"<b>"[..],
                b"&amp;",
                b"</p>",
                b"</span>",
                b"<span class='x'>",
                b"{{content}}",
                b"{{color-0}}",
                b"{{color-1}}",
                b"{{receipt-style}}",
                b"{{color-3}}",
                b"<!--",
                b"&lt;",
                b"&",
                b"'",
            ])),
            6 => t.extend((0..r.range(1, 6)).map(|_| 128 + (r.byte() & 127))),
            7 => {
                // longer than a line
                let c = *r.pick(b"WMx_=-*");
                t.extend((0..r.range(20, 130)).map(|i| if i % 7 == 3 { b'a' + (i % 26) as u8 } else { c }));
            }
            8 => t.extend((0..r.range(1, 12)).map(|_| b' ')),
            9 => t.extend("é€ß漢字Ω".chars().skip(r.below(5)).take(2).collect::<String>().bytes()),
            10 => t.push(*r.pick(&[0, 1, 7, 8, 11, 14, 15, 0x17, 0x19, 0x1a, 0x1e, 0x1f, 0x7f, 0xa0, 0x85, 0xff])),
            11 => t.extend((0..r.range(1, 20)).map(|_| b'0' + r.below(10) as u8)),
            _ => {
                for _ in 0..r.range(2, 12) {
                    for _ in 0..r.range(1, 8) {
                        t.push(b'a' + r.below(26) as u8);
                    }
                    t.push(b' ');
                }
            }
        }
    }
    t
}

fn bits(r: &mut Rng, n: usize) -> Vec<u8> {
    let style = r.below(4);
    (0..n)
        .map(|i| match style {
            0 => r.byte(),
            1 => 0xff,
            2 => (i * 37) as u8,
            _ => r.byte() & r.byte() & r.byte(),
        })
        .collect()
}

fn keys(r: &mut Rng) -> [u8; 2] {
    *r.pick(&[*b"AA", *b"AB", *b"BA", [32, 126], [0, 0], [1, 27]])
}

fn gs_l(r: &mut Rng, f: u8, data: &[u8]) -> Vec<u8> {
    let n = data.len() + 2;
    let mut v = if r.chance(1, 4) {
        let mut v = b"\x1d8L".to_vec();
        v.extend((n as u32).to_le_bytes());
        v
    } else {
        let mut v = b"\x1d(L".to_vec();
        v.extend(u16le(n));
        v
    };
    v.extend([48, f]);
    v.extend(data);
    v
}

pub fn gs_k(m: u8, f: u8, data: &[u8]) -> Vec<u8> {
    let mut v = b"\x1d(k".to_vec();
    v.extend(u16le(data.len() + 2));
    v.extend([m, f]);
    v.extend(data);
    v
}

fn dims(r: &mut Rng) -> (usize, usize) {
    if r.is_extreme() && r.chance(1, 6) {
        let long = *r.pick(&[255, 256, 257, 600, 1023, 1024, 1025, 2047, 2400]);
        let wide = r.range(1, 4);
        return if r.chance(1, 2) { (long, wide) } else { (wide, long) };
    }
    match r.below(10) {
        0 => (r.range(1, 8), r.range(1, 8)),
        1 => (r.range(100, 700), r.range(1, 6)),
        2 => (8 * r.range(1, 6), 8 * r.range(1, 6)),
        3 => (r.below(3), r.below(3)),
        _ => (r.range(1, 60), r.range(1, 40)),
    }
}

fn define(r: &mut Rng, nv: bool) -> Vec<u8> {
    let (w, h) = dims(r);
    let column = r.chance(1, 3);
    let per = if column { (h + 7) / 8 * w } else { (w + 7) / 8 * h };
    let n = if r.chance(1, 3) { r.range(1, 4) } else { 1 };
    let k = keys(r);
    let mut d = vec![48, k[0], k[1], n as u8];
    d.extend(u16le(w));
    d.extend(u16le(h));
    for _ in 0..n {
        d.push(par(r, &[49, 49, 50, 51, 1, 48]));
        d.extend(bits(r, per));
    }
    if r.chance(1, 12) {
        d.truncate(r.below(d.len() + 1));
    }
    let f = match (nv, column) {
        (true, false) => 67,
        (true, true) => 68,
        (false, false) => 83,
        (false, true) => 84,
    };
    gs_l(r, f, &d)
}

fn buffer_store(r: &mut Rng) -> Vec<u8> {
    let (w, h) = dims(r);
    let column = r.chance(1, 3);
    let per = if column { (h + 7) / 8 * w } else { (w + 7) / 8 * h };
    let mut d = vec![48, par(r, &[1, 1, 2, 3]), par(r, &[1, 1, 2, 0]), par(r, &[49, 49, 50, 51])];
    d.extend(u16le(w));
    d.extend(u16le(h));
    d.extend(bits(r, per));
    if r.chance(1, 12) {
        d.truncate(r.below(d.len() + 1));
    }
    gs_l(r, if column { 113 } else { 112 }, &d)
}

fn digits(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| b'0' + r.below(10) as u8).collect()
}

fn barcode(r: &mut Rng) -> Vec<u8> {
    let kind = r.below(10);
    let mut d: Vec<u8> = match kind {
        0 => {
            let n = r.range(11, 12);
            digits(r, n)
        }
        1 => {
            let n = *r.pick(&[6, 7, 8, 11, 12]);
            let mut d = digits(r, n);
            if n > 6 {
                d[0] = b'0' + r.below(2) as u8;
            }
            if n > 8 {
                d[3..10].fill(b'0');
                d[5] = b'0' + r.below(10) as u8;
                d[10] = b'5' + r.below(5) as u8;
            }
            d
        }
        2 => {
            let n = r.range(12, 13);
            digits(r, n)
        }
        3 => {
            let n = r.range(7, 8);
            digits(r, n)
        }
        4 => (0..r.range(1, 12)).map(|_| *r.pick(b"ABCXYZ0189 -.$/+%*")).collect(),
        5 => {
            let n = r.range(2, 9);
            digits(r, n * 2)
        }
        6 => {
            let mut d = vec![*r.pick(b"ABCD")];
            let n = r.range(1, 9);
            d.extend(digits(r, n));
            d.push(*r.pick(b"ABCD"));
            d
        }
        7 => (0..r.range(1, 12)).map(|_| *r.pick(b"ABCXYZ0189 -.$/+%")).collect(),
        8 => {
            let mut d = b"{B".to_vec();
            d.extend((0..r.range(1, 12)).map(|_| *r.pick(b"abcXYZ019<&>")));
            if r.chance(1, 3) {
                d.extend(b"{C");
                let n = r.range(1, 4);
                d.extend(digits(r, n * 2));
            }
            d
        }
        _ => bits(r, 6),
    };
    if r.chance(1, 10) {
        let i = r.below(d.len());
        d[i] = r.byte();
    }
    if r.chance(1, 15) {
        let n = r.below(20);
        d = (0..n).map(|_| r.byte()).collect();
    }
    let m = match kind {
        9 => r.range(74, 86) as u8,
        k => k as u8,
    };
    let mut v = b"\x1dk".to_vec();
    if m <= 6 && r.chance(1, 2) {
        v.push(m);
        v.extend(d.iter().filter(|b| **b != 0));
        v.push(0);
    } else {
        v.push(if m <= 8 { m + 65 } else { m });
        if (65..=79).contains(v.last().unwrap()) {
            v.push(d.len() as u8);
            v.extend(d);
        }
    }
    v
}

fn print_dims(r: &mut Rng) -> [usize; 4] {
    match r.below(8) {
        0 => [0, 0, 609, r.range(1, 300)],
        1 => [r.below(100), r.below(100), r.range(1, 700), r.range(1, 120)],
        2 => [r.below(700), r.below(50), r.range(1, 200), r.range(1, 50)],
        3 => [0, 0, r.below(3), r.below(3)],
        _ => [r.below(60), r.below(60), r.range(60, 400), r.range(30, 250)],
    }
}

fn area(r: &mut Rng) -> Op {
    let a = print_dims(r);
    let mut v = b"\x1bW".to_vec();
    for p in a {
        v.extend(u16le(p));
    }
    Op::new("area", v)
}

fn page_op(r: &mut Rng) -> Op {
    match r.below(12) {
        0 | 1 => area(r),
        2 | 3 => Op::new("direction", vec![0x1b, b'T', par(r, &[0, 1, 2, 3, 48, 49, 50, 51])]),
        4 => Op::new("page-print", b"\x1b\x0c".to_vec()),
        5 => Op::new("page-y", {
            let v = u16le(r.below(300));
            vec![0x1d, b'$', v[0], v[1]]
        }),
        6 => Op::new("page-down", {
            let d = if r.chance(1, 2) { r.below(120) } else { 65536 - r.range(1, 120) };
            let v = u16le(d);
            vec![0x1d, b'\\', v[0], v[1]]
        }),
        7 => Op::new("page-x", {
            let v = u16le(r.below(400));
            vec![0x1b, b'$', v[0], v[1]]
        }),
        8 => Op::new("page-mode", b"\x1bL".to_vec()),
        9 => Op::new("standard-mode", b"\x1bS".to_vec()),
        10 => Op::new("form-feed", b"\x0c".to_vec()),
        _ => Op::new("justify", vec![0x1b, b'a', par(r, &[0, 1, 2])]),
    }
}

fn family(r: &mut Rng, f: Fam, fams: &[(Fam, usize)], out: &mut Vec<Op>) {
    let op = match f {
        Text => Op::new("text", text(r)),
        Feed => match r.below(8) {
            0 => Op::new("cr", b"\r".to_vec()),
            1 => Op::new("cr", b"\r\n".to_vec()),
            _ => Op::new("lf", vec![b'\n'; if r.chance(1, 5) { r.range(2, 4) } else { 1 }]),
        },
        Tabs => match r.below(4) {
            0 => Op::new("tab-stop", vec![0x1b, b'D', par(r, &[4, 8, 12, 1, 0, 20]), par(r, &[0, 1, 2, 5, 31, 32])]),
            _ => Op::new("tab", vec![b'\t'; r.range(1, 3)]),
        },
        Style => match r.below(12) {
            0 => Op::new("print-mode", vec![0x1b, b'!', if r.chance(1, 2) { r.byte() } else { 0 }]),
            1 => Op::new("bold", vec![0x1b, b'E', par(r, &[0, 1, 255, 2])]),
            2 => Op::new("strike", vec![0x1b, b'G', par(r, &[0, 1, 255, 2])]),
            3 => Op::new("italic", vec![0x1b, b'4', par(r, &[0, 1, 49])]),
            4 => Op::new("underline", vec![0x1b, b'-', par(r, &[0, 1, 2, 48, 49, 50])]),
            5 => Op::new("font", vec![0x1b, b'M', par(r, &[0, 1, 2, 48, 49, 3, 97, 98])]),
            6 | 7 => Op::new("size", vec![0x1d, b'!', if r.chance(1, 5) { r.byte() } else { *r.pick(&[0, 0, 0x11, 0x01, 0x10, 0x22]) }]),
            8 => Op::new("invert", vec![0x1d, b'B', par(r, &[0, 1, 1, 2, 48, 49])]),
            9 => Op::new("upside-down", vec![0x1b, b'{', par(r, &[0, 1])]),
            10 => Op::new("smoothing", vec![0x1d, b'b', par(r, &[0, 1])]),
            _ => Op::new("print-mode", vec![0x1b, b'!', *r.pick(&[0, 1, 8, 16, 32, 48, 128, 0x40, 0xff])]),
        },
        Charset => {
            let op = match r.below(2) {
                0 => Op::new("code-table", vec![0x1b, b't', par(r, &[0, 0, 1, 2, 3, 4, 5, 11, 12, 13, 16, 17, 18, 19, 255, 255, 254])]),
                _ => {
                    let sets: Vec<u8> = (0..=20).chain(66..=75).chain([82]).collect();
                    Op::new("charset", vec![0x1b, b'R', par(r, &sets)])
                }
            };
            if r.chance(1, 2) {
                // characters it decides
                out.push(op);
                let n = r.range(1, 16);
                let high = r.chance(1, 2);
                let t: Vec<u8> =
                    (0..n).map(|_| if high { 128 + (r.byte() & 127) } else { *r.pick(b"#$*0123456789@[\\]^`{|}~") }).collect();
                out.push(Op::new("text", t));
                return;
            }
            op
        }
        Color => match r.below(3) {
            0 => Op::new("color", vec![0x1b, b'r', par(r, &[0, 1, 48, 49])]),
            _ => Op::new(
                "effects",
                vec![0x1d, b'(', b'N', if r.chance(1, 12) { r.below(6) as u8 } else { 2 }, 0, par(r, &[48, 48, 49, 50]), par(r, &[48, 49, 50, 51])],
            ),
        },
        Layout => match r.below(4) {
            0 => Op::new("spacing", vec![0x1b, b'3', par(r, &[0, 10, 24, 30, 60])]),
            1 => Op::new("default-spacing", b"\x1b2".to_vec()),
            _ => Op::new("justify", vec![0x1b, b'a', par(r, &[0, 1, 2, 48, 49, 50])]),
        },
        Move => match r.below(9) {
            8 => Op::new("page-y", {
                let v = u16le(r.below(300));
                vec![0x1d, b'$', v[0], v[1]]
            }),
            0 | 1 => Op::new("x", {
                let v = u16le(if r.chance(1, 8) { r.below(700) } else { r.below(500) });
                vec![0x1b, b'$', v[0], v[1]]
            }),
            2 => Op::new("feed", vec![0x1b, b'J', if r.is_extreme() { r.byte() } else { r.below(120) as u8 }]),
            3 => {
                if r.is_extreme() && r.chance(1, 2) {
                    out.push(Op::new("spacing", vec![0x1b, b'3', par(r, &[255])]));
                }
                Op::new("feed-lines", vec![0x1b, b'd', par(r, &[0, 1, 2, 5])])
            }
            4 | 5 => Op::new("reverse", vec![0x1b, b'e', par(r, &[1, 1, 2, 3])]),
            6 => Op::new("units", vec![0x1d, b'P', par(r, &[0, 203, 101, 50, 1, 2, 3, 7]), par(r, &[0, 203, 101, 50, 1, 2, 3, 7])]),
            _ => page_op(r),
        },
        Cut => match r.below(3) {
            0 => Op::new("cut", vec![0x1d, b'V', par(r, &[0, 1, 48, 49])]),
            _ => Op::new("cut", vec![0x1d, b'V', par(r, &[65, 66, 97, 103, 98, 104, 2]), r.below(100) as u8]),
        },
        Bar => Op::new("barcode", barcode(r)),
        BarSet => match r.below(4) {
            0 => Op::new("bar-width", vec![0x1d, b'w', par(r, &[1, 2, 3, 4, 5, 6])]),
            1 => Op::new("bar-height", vec![0x1d, b'h', par(r, &[1, 20, 40, 80, 162])]),
            2 => Op::new("hri", vec![0x1d, b'H', par(r, &[0, 1, 2, 3, 48, 49, 50, 51])]),
            _ => Op::new("hri-font", vec![0x1d, b'f', par(r, &[0, 1, 48, 49, 2])]),
        },
        Qr => match r.below(12) {
            0 => {
                let m = par(r, &[49, 50, 51, 51]);
                Op::new("qr-model", gs_k(49, 65, &[m, 0]))
            }
            1 | 2 => {
                let s = par(r, &[1, 2, 3, 4, 6]);
                Op::new("qr-size", gs_k(49, 67, &[s]))
            }
            3 => {
                let e = par(r, &[48, 49, 50, 51]);
                Op::new("qr-level", gs_k(49, 69, &[e]))
            }
            4..=7 => {
                let n = match r.below(9) {
                    0 => r.below(4),
                    1 => r.range(60, 400),
                    2 if r.is_extreme() => r.range(600, 3100),
                    2 => r.range(400, 600),
                    // what fits micro symbols
                    3 | 4 => r.range(3, 16),
                    _ => r.range(3, 40),
                };
                let of: &[u8] = *r.pick(&[&b"0123456789ABC:/abc"[..], b"0123456789", b"ABCDEFGHIJK $%*+-./:0123456789", b"abc;<>&xyz"]);
                let mut d = vec![48];
                d.extend((0..n).map(|_| if n < 30 { *r.pick(of) } else { r.byte() }));
                Op::new("qr-store", gs_k(49, 80, &d))
            }
            _ => Op::new("qr-print", gs_k(49, 81, &[48])),
        },
        Symbols => {
            let m = par(r, &[48, 50, 51, 52, 53, 54, 55]);
            let f = par(r, &[65, 66, 67, 69, 70, 71, 72, 80, 81, 82]);
            let n = r.below(6);
            let d: Vec<u8> = (0..n).map(|_| par(r, &[0, 1, 2, 3, 10, 48, 49])).collect();
            Op::new("symbol", gs_k(m, f, &d))
        }
        Bits => {
            let m = par(r, &[0, 1, 32, 33]);
            let w = match r.below(10) {
                0 => 0,
                1 => r.range(200, 620),
                _ => r.range(1, 60),
            };
            let n = w * if matches!(m, 32 | 33) { 3 } else { 1 };
            let mut v = vec![0x1b, b'*', m];
            v.extend(u16le(w));
            v.extend(bits(r, n));
            Op::new("bit-image", v)
        }
        Raster => {
            let (w, h) = dims(r);
            let w = (w + 7) / 8;
            let mut v = vec![0x1d, b'v', b'0', par(r, &[0, 1, 2, 3, 48, 49, 50, 51])];
            v.extend(u16le(w));
            v.extend(u16le(h));
            v.extend(bits(r, w * h));
            Op::new("raster", v)
        }
        Nv | Download => {
            let nv = f == Nv;
            if r.is_extreme() && r.chance(1, 6) {
                return many_graphics(r, nv, out);
            }
            let (print, del, all) = if nv { (69, 66, 65) } else { (85, 82, 81) };
            match r.below(16) {
                0..=5 => Op::new(if nv { "define-nv" } else { "define" }, define(r, nv)),
                6 => {
                    let k = keys(r);
                    Op::new(if nv { "delete-nv" } else { "delete" }, gs_l(r, del, &k))
                }
                7 if r.chance(1, 2) => Op::new(if nv { "delete-all-nv" } else { "delete-all" }, gs_l(r, all, if nv { b"CLR" } else { b"CLR" })),
                _ => {
                    let k = keys(r);
                    let z = [par(r, &[1, 1, 2]), par(r, &[1, 1, 2])];
                    Op::new(if nv { "print-nv" } else { "print-graphic" }, gs_l(r, print, &[k[0], k[1], z[0], z[1]]))
                }
            }
        }
        Buffer => match r.below(3) {
            0 => {
                let f = *r.pick(&[2, 50]);
                Op::new("print-buffer", gs_l(r, f, &[]))
            }
            _ => Op::new("store-buffer", buffer_store(r)),
        },
        Page => {
            // a whole page mode session
            out.push(Op::new("page-mode", b"\x1bL".to_vec()));
            if r.chance(1, 4) {
                out.push(Op::new("direction", vec![0x1b, b'T', par(r, &[0, 1, 2, 3])]));
            }
            let inner: Vec<(Fam, usize)> =
                fams.iter().copied().filter(|(f, _)| !matches!(f, Page | Init | Form)).collect();
            for _ in 0..r.range(1, 3) {
                out.push(area(r));
                if r.chance(1, 2) {
                    out.push(Op::new("direction", vec![0x1b, b'T', par(r, &[0, 1, 2, 3])]));
                }
                if r.is_extreme() && r.chance(1, 4) {
                    for _ in 0..r.range(10, 80) {
                        out.push(Op::new("direction", vec![0x1b, b'T', *r.pick(&[0, 1, 2, 3])]));
                    }
                }
                if !inner.is_empty() {
                    let n = r.range(0, 5);
                    let o = ops(r, &inner, n);
                    out.extend(o);
                }
                if r.chance(1, 4) {
                    // again, and on with the same page
                    for _ in 0..r.range(1, 2) {
                        out.push(Op::new("page-print", b"\x1b\x0c".to_vec()));
                    }
                }
            }
            if r.chance(1, 4) {
                // something that looks different from every side
                out.push(Op::new("text", b"page".to_vec()));
                out.push(Op::new("page-print", b"\x1b\x0c".to_vec()));
            }
            match r.below(8) {
                0 => Op::new("standard-mode", b"\x1bS".to_vec()),
                1 => Op::new("init", b"\x1b@".to_vec()),
                2 => return,
                3 | 4 => {
                    out.push(Op::new("page-print", b"\x1b\x0c".to_vec()));
                    Op::new("standard-mode", b"\x1bS".to_vec())
                }
                _ => Op::new("form-feed", b"\x0c".to_vec()),
            }
        }
        PageOp => page_op(r),
        Init => Op::new("init", b"\x1b@".to_vec()),
        Status => match r.below(7) {
            0 => Op::new("paper-sensor", vec![0x1b, b'c', *r.pick(&[3, 4]), r.byte()]),
            1 => Op::new("panel", vec![0x1b, b'c', 5, r.byte()]),
            2 => Op::new("printer-id", vec![0x1d, b'I', r.byte()]),
            3 => Op::new("drawer", vec![0x1b, b'p', par(r, &[0, 1]), r.byte(), r.byte()]),
            4 => Op::new("response", vec![0x1d, b'(', b'H', 6, 0, 48, 48, 65, 66, 67, 68]),
            5 => Op::new("gs-g", vec![0x1d, b'(', b'G', 2, 0, r.byte(), r.byte()]),
            _ => Op::new("peripheral", vec![0x1b, b'=', par(r, &[0, 1])]),
        },
        Unknown => match r.below(7) {
            0 => Op::new("unknown", vec![0x1b, *r.pick(b"Zq\x01\x7f\xff0")]),
            1 => Op::new("unknown", vec![0x1d, *r.pick(b"Zq\x01\x7f\xff0")]),
            2 => Op::new("unknown", vec![0x1c, r.byte()]),
            3 => Op::new("unknown", vec![0x10, r.byte(), r.byte()]),
            4 => Op::new("unknown", gs_k(*r.pick(&[47, 55, 0]), r.byte(), b"xyz")),
            5 => Op::new("unknown", {
                let f = *r.pick(&[3, 99, 255]);
                gs_l(r, f, b"ab")
            }),
            _ => Op::new("cancel", if r.chance(1, 2) { b"\x18@".to_vec() } else { vec![0x18, r.byte()] }),
        },
        Form => Op::new("form-feed", b"\x0c".to_vec()),
        Density => Op::new("density", {
            let d = *r.pick(&[[50, 50], [51, 51], [50, 51]]);
            let f = *r.pick(&[1, 49]);
            gs_l(r, f, &d)
        }),
        Announce => announce(r),
        Sample => {
            let l = samples();
            let s = &l[r.below(l.len())];
            let a = if r.chance(1, 3) { 0 } else { r.below(s.len()) };
            let n = if r.chance(1, 4) { s.len() } else { r.range(1, 25) };
            out.extend(s[a..(a + n).min(s.len())].iter().cloned());
            return;
        }
    };
    out.push(op);
}

/// A command whose size fields promise far more than follows.
fn announce(r: &mut Rng) -> Op {
    let big = *r.pick(&[0x7fffusize, 0xffff, 0x8000, 0xff00, 0x00ff, 0x1000]);
    let b = u16le(big);
    let c = u16le(*r.pick(&[0x7fff, 0xffff, 0x1000, 0x00ff]));
    let n = r.below(40);
    let data = bits(r, n);
    let mut v: Vec<u8> = match r.below(9) {
        0 => vec![0x1b, b'*', 33, b[0], b[1]],
        1 => vec![0x1d, b'v', b'0', 0, b[0], b[1], c[0], c[1]],
        2 => vec![0x1d, b'(', b'L', b[0], b[1], 48, 112, 48, 1, 1, 49, b[0], b[1], c[0], c[1]],
        3 => vec![0x1d, b'8', b'L', b[0], b[1], c[0], c[1], 48, 112, 48, 2, 2, 49, b[0], b[1], c[0], c[1]],
        4 => vec![0x1d, b'(', b'k', b[0], b[1], 49, 80, 48],
        // the stream goes on: the size of the command is right, the size of the picture is not
        5 => {
            let k = keys(r);
            let f = *r.pick(&[67, 68, 83, 84]);
            let mut d = vec![48, k[0], k[1], *r.pick(&[1, 3, 255]), b[0], b[1], c[0], c[1], 49];
            d.extend(&data);
            let mut v = gs_l(r, f, &d);
            v.extend(gs_l(r, if f < 80 { 69 } else { 85 }, &[k[0], k[1], 1, 1]));
            return Op::new("announce", v);
        }
        6 => {
            let f = *r.pick(&[112, 113]);
            let mut d = vec![48, 2, 2, 49, b[0], b[1], c[0], c[1]];
            d.extend(&data);
            let mut v = gs_l(r, f, &d);
            v.extend(gs_l(r, 50, &[]));
            return Op::new("announce", v);
        }
        7 => {
            let mut v = b"\x1bL\x1bW".to_vec();
            for p in [0, 0, big, r.below(300)] {
                v.extend(u16le(p));
            }
            v.extend(b"x\x0c");
            return Op::new("announce", v);
        }
        _ => vec![0x1d, b'k', 73, 255],
    };
    v.extend(data);
    Op::new("announce", v)
}

/// Receipts of real devices, one command per operation.
fn samples() -> &'static Vec<Vec<Op>> {
    static ALL: std::sync::OnceLock<Vec<Vec<Op>>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        [
            &include_bytes!("../corpus/barcodes.bin")[..],
            include_bytes!("../corpus/code_pages.bin"),
            include_bytes!("../corpus/gs_images_column.bin"),
            include_bytes!("../corpus/gs_images_raster.bin"),
            include_bytes!("../corpus/issuing_receipts.bin"),
            include_bytes!("../corpus/page_mode.bin"),
            include_bytes!("../corpus/page_mode_debug.bin"),
            include_bytes!("../corpus/print_graphics.bin"),
            include_bytes!("../corpus/receipt_with_barcode.bin"),
            include_bytes!("../corpus/test_receipt_1.bin"),
            include_bytes!("../corpus/test_receipt_2.bin"),
            include_bytes!("../corpus/test_receipt_3.bin"),
            include_bytes!("../corpus/test_receipt_4.bin"),
            include_bytes!("../corpus/typography.bin"),
            include_bytes!("../corpus/retail.bin"),
        ]
        .iter()
        .map(|b| crate::model::tokenize(b).iter().map(|t| Op::new("sample", &b[t.start..t.end])).collect())
        .collect()
    })
}
