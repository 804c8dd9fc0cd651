//! Views of a job's drawing calls that do not depend on how the engine splits its work into
//! calls: characters one by one, figures as the dots they cover.

use crate::types::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Ch {
    pub page: bool,
    pub c: char,
    pub x: i64,
    pub y: i64,
    /// height of the line it stands on
    pub h: u32,
    pub style: Style,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Style {
    pub font: u8,
    pub bw: u32,
    pub bh: u32,
    pub cw: u32,
    pub ch: u32,
    pub bold: bool,
    pub italic: bool,
    pub ul: u32,
    pub st: u32,
    pub sw: u32,
    pub sh: u32,
    pub upd: bool,
    pub bg: Px,
    pub fg: Px,
    pub just: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Begin([u32; 6]),
    PageBegin,
    PageArea([u32; 3]),
    PageEnd,
    PrintPage([u32; 3]),
    Ch(Ch),
    Gfx(bool, Px, Vec<Rect>),
    Img(bool, Img),
    End(u32),
}

/// The dots a figure covers, as the fewest bands of rectangles, top to bottom.
pub fn region(rects: &[Rect]) -> Vec<Rect> {
    let mut ys: Vec<u32> = rects.iter().flat_map(|r| [r[1], r[1] + r[3]]).collect();
    ys.sort();
    ys.dedup();
    let mut bands: Vec<Vec<(u32, u32)>> = vec![vec![]; ys.len()];
    for r in rects.iter().filter(|r| r[2] > 0 && r[3] > 0) {
        let a = ys.binary_search(&r[1]).unwrap();
        let b = ys.binary_search(&(r[1] + r[3])).unwrap();
        for band in &mut bands[a..b] {
            band.push((r[0], r[0] + r[2]));
        }
    }
    let mut out: Vec<(u32, u32, Vec<(u32, u32)>)> = vec![];
    for (i, mut l) in bands.into_iter().enumerate() {
        if l.is_empty() {
            continue;
        }
        l.sort();
        let mut m: Vec<(u32, u32)> = vec![];
        for (a, b) in l {
            match m.last_mut() {
                Some(p) if a <= p.1 => p.1 = p.1.max(b),
                _ => m.push((a, b)),
            }
        }
        match out.last_mut() {
            Some(p) if p.1 == ys[i] && p.2 == m => p.1 = ys[i + 1],
            _ => out.push((ys[i], ys[i + 1], m)),
        }
    }
    out.into_iter().flat_map(|(a, b, m)| m.into_iter().map(move |(l, r)| [l, a, r - l, b - a])).collect()
}

/// A figure moved to the corner.
pub fn cornered(r: &[Rect]) -> Vec<Rect> {
    let x = r.iter().map(|r| r[0]).min().unwrap_or(0);
    let y = r.iter().map(|r| r[1]).min().unwrap_or(0);
    r.iter().map(|r| [r[0] - x, r[1] - y, r[2], r[3]]).collect()
}

pub fn items(evs: &[Ev]) -> Vec<Item> {
    let mut out = vec![];
    for e in evs {
        match e {
            Ev::Debug(_) | Ev::Errs(_) => {}
            Ev::Begin(a) => out.push(Item::Begin(*a)),
            Ev::PageBegin => out.push(Item::PageBegin),
            Ev::PageArea(a) => out.push(Item::PageArea(*a)),
            Ev::PageEnd => out.push(Item::PageEnd),
            Ev::PrintPage(a) => out.push(Item::PrintPage(*a)),
            Ev::End(y) => out.push(Item::End(*y)),
            Ev::Gfx(p, c, r) => {
                let r = region(r);
                if !r.is_empty() {
                    out.push(Item::Gfx(*p, *c, r));
                }
            }
            Ev::Image(p, i) => out.push(Item::Img(*p, i.clone())),
            Ev::Text(p, off, h, just, spans) => {
                for s in spans {
                    let d = s.dim.unwrap_or([u32::MAX; 4]);
                    for (i, c) in s.text.chars().enumerate() {
                        out.push(Item::Ch(Ch {
                            page: *p,
                            c,
                            x: d[0] as i64 + *off as i64 + i as i64 * s.cw as i64,
                            y: d[1] as i64,
                            h: *h,
                            style: Style {
                                font: s.font,
                                bw: s.bw,
                                bh: s.bh,
                                cw: s.cw,
                                ch: s.ch,
                                bold: s.bold,
                                italic: s.italic,
                                ul: s.ul,
                                st: s.st,
                                sw: s.sw,
                                sh: s.sh,
                                upd: s.upd,
                                bg: s.bg,
                                fg: s.fg,
                                just: *just,
                            },
                        }));
                    }
                }
            }
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrKind {
    Unknown,
    Graphics,
    Device,
    Other,
}

pub fn err_kind(e: &str) -> ErrKind {
    if e.contains("[UnknownCommand]") {
        ErrKind::Unknown
    } else if e.contains("[GraphicsError]") {
        ErrKind::Graphics
    } else if e.contains("[ChildRenderError]") {
        ErrKind::Device
    } else {
        ErrKind::Other
    }
}
pub fn err_kinds(e: &[String]) -> Vec<ErrKind> {
    e.iter().map(|e| err_kind(e)).collect()
}

fn short<T: std::fmt::Debug>(t: Option<&T>) -> String {
    match t {
        None => "nothing more".into(),
        Some(t) => {
            let s = format!("{t:?}");
            match s.char_indices().nth(260) {
                Some((i, _)) => format!("{}…", &s[..i]),
                None => s,
            }
        }
    }
}

/// The first place where two histories part.
pub fn parts<T: PartialEq + std::fmt::Debug>(want: &[T], got: &[T]) -> Option<String> {
    let n = want.len().max(got.len());
    for i in 0..n {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Some(format!("item {i}: {} where {} is due", short(g), short(w)));
        }
    }
    None
}
