//! The reference paper: what a sequence of drawing calls looks like once it is ink on paper,
//! and which of the calls fall off it.

use crate::types::*;
use fontdue::layout::CharacterData;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

const WHITE: Px = [255; 4];
pub const DEBUG_TEXT: Px = [98, 224, 89, 60];
pub const DEBUG_BASE: Px = [110, 255, 185, 255];
pub const DEBUG_IMAGE: Px = [216, 74, 252, 255];
pub const DEBUG_PAGE: Px = [247, 180, 75, 255];
const FONT_SIZE: f32 = 12.0 * 1.68;
const BASELINE: f32 = 0.0315;

static FONT_DATA: [&[u8]; 4] = [
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Medium.ttf"),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Bold.ttf"),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-MediumItalic.ttf"),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-BoldItalic.ttf"),
];

type GlyphKey = (char, usize, u32, [u32; 4], Px, Px);
/// None: nothing is drawn for this character
type Glyph = Option<Rc<Vec<Px>>>;

pub struct Fonts {
    fonts: Vec<Option<fontdue::Font>>,
    memo: HashMap<GlyphKey, Glyph>,
}

thread_local! {
    static FONTS: RefCell<Fonts> = RefCell::new(Fonts { fonts: vec![None, None, None, None], memo: HashMap::new() });
}

fn blend(to: &mut Px, c: &Px, alpha: u8) {
    let a = alpha as f32 / 255.0;
    for i in 0..3 {
        to[i] = (c[i] as f32 * a + to[i] as f32 * (1.0 - a)).round() as u8;
    }
}
fn multiply(to: &mut Px, c: &Px) {
    if c[3] == 0 {
        return;
    }
    let a = c[3] as f32 / 255.0;
    for i in 0..3 {
        to[i] = (to[i] as f32 / 255.0 * c[i] as f32 / 255.0 * a * 255.0).round() as u8;
    }
}

fn border(px: &mut [Px], w: u32, h: u32, c: Px) {
    if w == 0 || h == 0 {
        return;
    }
    let (w, h) = (w as usize, h as usize);
    for x in 0..w {
        blend(&mut px[x], &c, c[3]);
        blend(&mut px[(h - 1) * w + x], &c, c[3]);
    }
    for y in 0..h {
        blend(&mut px[y * w], &c, c[3]);
        blend(&mut px[y * w + w - 1], &c, c[3]);
    }
}

/// A character cell, `base` dots large at size one and drawn `size` dots large.
fn glyph(c: char, face: usize, points: f32, base: [u32; 2], size: [u32; 2], bg: Px, fg: Px) -> Glyph {
    FONTS.with(|f| {
        let f = &mut *f.borrow_mut();
        let key = (c, face, points.to_bits(), [base[0], base[1], size[0], size[1]], bg, fg);
        if let Some(g) = f.memo.get(&key) {
            return g.clone();
        }
        if f.memo.len() > 4000 {
            f.memo.clear();
        }
        let font = f.fonts[face].get_or_insert_with(|| {
            fontdue::Font::from_bytes(FONT_DATA[face], fontdue::FontSettings::default()).unwrap()
        });
        let g = draw_glyph(c, font, points, base, size, bg, fg).map(Rc::new);
        f.memo.insert(key, g.clone());
        g
    })
}

fn draw_glyph(c: char, font: &fontdue::Font, points: f32, base: [u32; 2], size: [u32; 2], bg: Px, fg: Px) -> Option<Vec<Px>> {
    if CharacterData::classify(c, font.lookup_glyph_index(c)).is_control() {
        return None;
    }
    let k = (size[0] / base[0]).max(size[1] / base[1]);
    let points = points * k as f32;
    let (w, h) = (base[0] * k, base[1] * k);
    let mut px = vec![bg; (w * h) as usize];
    let (m, cover) = font.rasterize(c, points);
    let line = font.horizontal_line_metrics(points).unwrap();
    let baseline = (line.ascent + line.descent).ceil();
    let dy = ((baseline - m.bounds.height) - m.bounds.ymin).ceil() as u32;
    let dx = m.bounds.xmin.round().abs() as u32;
    if m.width > 0 {
        for (i, a) in cover.iter().enumerate() {
            let x = (i % m.width) as u32 + dx;
            let y = ((i / m.width) as u32).saturating_add(dy);
            if x < w && y < h && *a > 0 {
                blend(&mut px[(y * w + x) as usize], &fg, *a);
            }
        }
    }
    if k == 1 {
        return Some(px);
    }
    // shrink the shorter side
    let (rx, ry) = (w as f32 / size[0] as f32, h as f32 / size[1] as f32);
    let mut out = Vec::with_capacity((size[0] * size[1]) as usize);
    for y in 0..size[1] {
        for x in 0..size[0] {
            let (sx, sy) = ((x as f32 * rx) as u32, (y as f32 * ry) as u32);
            out.push(px[(sy * w + sx) as usize]);
        }
    }
    Some(out)
}

pub struct Canvas {
    pub w: u32,
    pub px: Vec<Px>,
    grow: bool,
    pub errs: u32,
    debug: [bool; 4],
}

impl Canvas {
    fn new(w: u32, grow: bool, debug: [bool; 4]) -> Canvas {
        Canvas { w, px: vec![], grow, errs: 0, debug }
    }
    pub fn h(&self) -> u32 {
        if self.w == 0 { 0 } else { (self.px.len() / self.w as usize) as u32 }
    }
    fn at_least(&mut self, h: u32) {
        let n = self.w as usize * h as usize;
        if self.px.len() < n {
            self.px.resize(n, WHITE);
        }
    }

    fn draw(&mut self, x: u32, y: u32, w: u32, h: u32, ink: bool, px: impl Fn(u32, u32) -> Px) {
        if x >= self.w || (y >= self.h() && !self.grow) {
            self.errs += 1;
            return;
        }
        let nw = w.min(self.w - x);
        let nh = if self.grow { h } else { h.min(self.h() - y) };
        self.at_least(y + nh);
        for r in 0..nh {
            let start = (y + r) as usize * self.w as usize + x as usize;
            for (c, to) in self.px[start..start + nw as usize].iter_mut().enumerate() {
                let p = px(c as u32, r);
                if ink {
                    multiply(to, &p);
                } else if p[3] == 255 {
                    *to = p;
                } else {
                    blend(to, &p, p[3]);
                }
            }
        }
    }

    fn rect(&mut self, r: Rect, c: Px, ink: bool) {
        self.draw(r[0], r[1], r[2], r[3], ink, |_, _| c);
    }

    fn flip(&mut self, x: u32, y: u32, w: u32, h: u32) {
        if x + w > self.w || (!self.grow && y + h > self.h()) {
            return;
        }
        self.at_least(y + h);
        let line = |c: &Canvas, r: u32| {
            let s = r as usize * c.w as usize + x as usize;
            c.px[s..s + w as usize].to_vec()
        };
        let rows: Vec<Vec<Px>> = (y..y + h).map(|r| line(self, r)).collect();
        if w == 0 || h == 0 {
            // still a drawing
            self.draw(x, y, w, h, false, |_, _| WHITE);
            return;
        }
        self.draw(x, y, w, h, false, |c, r| rows[(h - 1 - r) as usize][c as usize]);
    }

    fn image(&mut self, i: &Img) {
        let mut px = i.px.clone();
        if self.debug[1] {
            border(&mut px, i.w, i.h, DEBUG_IMAGE);
            // a border dot on a transparent dot takes the colour and stays transparent unless
            // it is opaque, which the border is
            if i.w > 0 && i.h > 0 {
                for y in 0..i.h {
                    for x in 0..i.w {
                        if x == 0 || y == 0 || x + 1 == i.w || y + 1 == i.h {
                            px[(y * i.w + x) as usize] = DEBUG_IMAGE;
                        }
                    }
                }
            }
        }
        self.draw(i.x, i.y, i.w, i.h, true, |x, y| px[(y * i.w + x) as usize]);
        if i.upd {
            self.flip(i.x, i.y, i.w, i.h);
        }
    }

    fn span(&mut self, off: u32, line_h: u32, s: &Span) {
        let Some([x, y, w, h]) = s.dim else { return };
        let face = s.bold as usize + 2 * s.italic as usize;
        let (points, ratio) = match s.font {
            1 => (FONT_SIZE * 0.8, FONT_SIZE * 0.8 * BASELINE),
            2 => (FONT_SIZE * 0.7, FONT_SIZE * 0.5 * BASELINE),
            _ => (FONT_SIZE, FONT_SIZE * BASELINE),
        };
        let x = x + off;
        let y = y + if line_h > s.ch { (line_h as f32 * ratio - s.ch as f32 * ratio) as u32 } else { 0 };
        let under = (s.ch as f32 * ratio) as u32;
        let mut cx = x;
        for c in s.text.chars() {
            if let Some(g) = glyph(c, face, points, [s.bw, s.bh], [s.cw, s.ch], s.bg, s.fg) {
                if s.cw > 0 && s.ch > 0 {
                    let mut g = g;
                    if self.debug[0] {
                        let mut own = g.to_vec();
                        border(&mut own, s.cw, s.ch, DEBUG_TEXT);
                        g = Rc::new(own);
                    }
                    let cw = s.cw;
                    self.draw(cx, y, s.cw, s.ch, true, |x, y| g[(y * cw + x) as usize]);
                }
            }
            cx += s.cw;
        }
        if self.debug[0] {
            self.rect([x, y + 1 + under, w, 1], DEBUG_BASE, false);
        }
        if s.ul > 0 {
            self.rect([x, y + 3 + under, w, 1], s.fg, true);
        }
        if s.st > 0 {
            self.rect([x, y + (s.ch as f32 / 2.5) as u32, w, s.st], s.fg, true);
        }
        if s.upd {
            self.flip(x, y, w, h);
        }
    }

    /// quarter turns clockwise
    fn turn(&mut self, n: u32) {
        for _ in 0..n % 4 {
            let (w, h) = (self.w as usize, self.h() as usize);
            let mut out = Vec::with_capacity(w * h);
            for x in 0..w {
                for y in (0..h).rev() {
                    out.push(self.px[y * w + x]);
                }
            }
            self.px = out;
            self.w = h as u32;
        }
    }

    fn widen(&mut self, w: u32) {
        if w <= self.w {
            return;
        }
        let (old, h) = (self.w as usize, self.h() as usize);
        let mut out = vec![WHITE; w as usize * h];
        for y in 0..h {
            out[y * w as usize..y * w as usize + old].copy_from_slice(&self.px[y * old..(y + 1) * old]);
        }
        self.px = out;
        self.w = w;
    }
}

/// The page of page mode, as both devices draw it.
pub struct Page {
    pub c: Canvas,
}

impl Page {
    pub fn new(debug: [bool; 4]) -> Page {
        Page { c: Canvas::new(0, false, debug) }
    }
    pub fn begin(&mut self) {
        self.c.w = 0;
        self.c.px.clear();
    }
    pub fn area(&mut self, a: &[u32; 3]) {
        self.c.turn(a[0]);
        self.c.widen(a[1]);
        self.c.at_least(a[2]);
    }
    pub fn upright(&self, dir: u32) -> (u32, u32, Vec<Px>) {
        let mut c = Canvas { w: self.c.w, px: self.c.px.clone(), grow: false, errs: 0, debug: self.c.debug };
        c.turn(4 - dir % 4);
        (c.w, c.h(), c.px)
    }
    /// true if the event was drawn on the page
    pub fn take(&mut self, e: &Ev) -> bool {
        match e {
            Ev::PageBegin => self.begin(),
            Ev::PageArea(a) => self.area(a),
            Ev::Gfx(true, c, rects) => rects.iter().for_each(|r| self.c.rect(*r, *c, true)),
            Ev::Image(true, i) => self.c.image(i),
            Ev::Text(true, off, h, _, spans) => spans.iter().for_each(|s| self.c.span(*off, *h, s)),
            _ => return false,
        }
        true
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Paper {
    pub pic: Picture,
    pub errs: u32,
}

/// Every output of a job on paper.
pub fn papers(evs: &[Ev]) -> Vec<Paper> {
    let mut debug = [false; 4];
    let mut out = vec![];
    let mut paper = Canvas::new(0, true, debug);
    let mut page = Page::new(debug);
    let mut wide = 0;
    for e in evs {
        if page.take(e) {
            continue;
        }
        match e {
            Ev::Debug(d) => {
                debug = *d;
                page.c.debug = debug;
            }
            Ev::Begin(a) => {
                let errs = page.c.errs;
                paper = Canvas::new(a[2], true, debug);
                page = Page::new(debug);
                page.c.errs = errs;
                wide = a[3];
            }
            Ev::PrintPage([x, y, dir]) => {
                let (w, h, mut px) = page.upright(*dir);
                if debug[2] {
                    border(&mut px, w, h, DEBUG_PAGE);
                }
                paper.draw(*x, *y, w, h, false, |x, y| px[(y * w + x) as usize]);
            }
            Ev::Gfx(false, c, rects) => rects.iter().for_each(|r| paper.rect(*r, *c, true)),
            Ev::Image(false, i) => paper.image(i),
            Ev::Text(false, off, h, _, spans) => spans.iter().for_each(|s| paper.span(*off, *h, s)),
            Ev::End(y) => {
                paper.at_least(*y);
                let margin = (wide - paper.w) / 2;
                let h = paper.h();
                let mut bytes = vec![255; (wide * h) as usize * 3];
                for r in 0..h {
                    for c in 0..paper.w {
                        let p = paper.px[(r * paper.w + c) as usize];
                        let o = (r * wide + margin + c) as usize * 3;
                        bytes[o..o + 3].copy_from_slice(&p[..3]);
                    }
                }
                let errs = std::mem::take(&mut paper.errs) + std::mem::take(&mut page.c.errs);
                out.push(Paper { pic: Picture { w: wide, h, bytes }, errs });
            }
            _ => {}
        }
    }
    out
}

/// Where two pictures differ by more than rounding.
pub fn differ(a: &Picture, b: &Picture) -> Option<String> {
    if (a.w, a.h) != (b.w, b.h) {
        return Some(format!("size {}x{} instead of {}x{}", a.w, a.h, b.w, b.h));
    }
    if a.bytes.len() != b.bytes.len() {
        return Some(format!("{} bytes for {}x{}", a.bytes.len(), a.w, a.h));
    }
    let i = a.bytes.iter().zip(&b.bytes).position(|(x, y)| x.abs_diff(*y) > 2)?;
    let p = i as u32 / 3;
    let at = |v: &[u8]| [v[i / 3 * 3], v[i / 3 * 3 + 1], v[i / 3 * 3 + 2]];
    Some(format!("at x {} y {}: {:?} instead of {:?}", p % a.w, p / a.w, at(&a.bytes), at(&b.bytes)))
}
