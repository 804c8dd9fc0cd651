//! The reference printer: what a stream of bytes means, written from the properties and the
//! ESC/POS commands the engine supports, in the simulator's own types.

use crate::tables;
use crate::types::*;
use std::collections::BTreeMap;
use std::rc::Rc;

const ESC: u8 = 0x1B;
const GS: u8 = 0x1D;
pub const PRINTABLE: i64 = 609;
pub const PAPER: i64 = 649;
pub const MARGIN: i64 = 20;
pub const TOP: i64 = 108;
const BLACK: Px = [0, 0, 0, 255];
const RED: Px = [158, 22, 22, 255];
const BLUE: Px = [27, 57, 169, 255];
const WHITE: Px = [255, 255, 255, 255];

fn color(n: u8) -> Px {
    match n {
        0 | 48 => WHITE,
        2 | 50 => RED,
        3 | 51 => BLUE,
        _ => BLACK,
    }
}

// ------------------------------------------------------------------ reading the stream

/// Every command the printer knows, by its leading bytes.
pub const COMMANDS: &[&[u8]] = &[
    b"\n", b"\r", b"\t", b"\x0c", b"\x18@",
    b"\x1b!", b"\x1b$", b"\x1b*", b"\x1b-", b"\x1b2", b"\x1b3", b"\x1b4", b"\x1b=", b"\x1b@", b"\x1bD", b"\x1bE",
    b"\x1bG", b"\x1bJ", b"\x1bL", b"\x1bM", b"\x1bR", b"\x1bS", b"\x1bT", b"\x1bW", b"\x1b\x0c", b"\x1ba",
    b"\x1bc\x03", b"\x1bc\x04", b"\x1bc\x05", b"\x1bd", b"\x1be", b"\x1bp", b"\x1br", b"\x1bt", b"\x1b{",
    b"\x1d!", b"\x1d$", b"\x1d(G", b"\x1d(H", b"\x1d(L", b"\x1d(N", b"\x1d(k", b"\x1d8L", b"\x1d\\", b"\x1dB", b"\x1dH",
    b"\x1dI", b"\x1dP", b"\x1dV", b"\x1db", b"\x1df", b"\x1dh", b"\x1dk", b"\x1dv0", b"\x1dw",
];

/// Number of parameter and data bytes after the leading bytes; None if the stream ends before
/// it is even known.
fn arg_len(cmd: &[u8], r: &[u8]) -> Option<usize> {
    let at = |i: usize| r.get(i).map(|b| *b as usize);
    Some(match cmd {
        b"\n" | b"\r" | b"\t" | b"\x0c" | b"\x18@" | b"\x1b2" | b"\x1b@" | b"\x1bL" | b"\x1bS" | b"\x1b\x0c" => 0,
        b"\x1b$" | b"\x1bD" | b"\x1d\\" | b"\x1d$" | b"\x1dP" => 2,
        b"\x1bp" => 3,
        b"\x1d(G" => 4,
        b"\x1bW" => 8,
        b"\x1dk" => match at(0)? {
            0..=6 => 1 + r[1..].iter().position(|b| *b == 0)? + 1,
            65..=79 => 2 + at(1)?,
            _ => 1,
        },
        b"\x1b*" => {
            let per = if matches!(at(0)?, 32 | 33) { 3 } else { 1 };
            3 + per * (at(1)? + 256 * at(2)?)
        }
        b"\x1dv0" => 5 + (at(1)? + 256 * at(2)?) * (at(3)? + 256 * at(4)?),
        b"\x1dV" => match at(0)? {
            0 | 1 | 48 | 49 => 1,
            _ => 2,
        },
        b"\x1d(N" => (2 + at(0)? + 256 * at(1)?).max(3),
        b"\x1d(k" | b"\x1d(L" | b"\x1d(H" => {
            at(3)?;
            4 + (at(0)? + 256 * at(1)?).saturating_sub(2)
        }
        b"\x1d8L" => {
            at(5)?;
            6 + (at(0)? + (at(1)? << 8) + (at(2)? << 16) + (at(3)? << 24)).saturating_sub(2)
        }
        _ => 1,
    })
}

fn sub_known(cmd: &[u8], m: u8, f: u8) -> bool {
    if cmd == b"\x1d(k" {
        let fs: &[u8] = match m {
            48 => &[65, 66, 67, 69, 70, 80, 81, 82],
            49 => &[65, 67, 69, 80, 81, 82],
            50 => &[65, 80, 81, 82],
            51 => &[67, 71, 80, 81, 82],
            52 => &[67, 71, 72, 80, 81, 82],
            53 => &[66, 67, 69, 80, 81, 82],
            54 => &[66, 67, 80, 81, 82],
            _ => &[],
        };
        fs.contains(&f)
    } else {
        matches!(f, 0 | 1 | 2 | 4 | 48 | 49 | 50 | 52 | 64..=69 | 80..=85 | 112 | 113)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Text,
    Command,
    Unknown,
    /// cut off by the end of the stream
    Incomplete,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub class: Class,
    pub start: usize,
    pub end: usize,
    /// length of the leading bytes of a command
    pub lead: usize,
}

fn is_intro(b: u8) -> bool {
    matches!(b, 0x10 | 0x18 | 0x1B..=0x1D)
}

pub fn tokenize(s: &[u8]) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    // text and unknown commands collect what follows until the next command
    let mut open = false;
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if let Some(c) = COMMANDS.iter().find(|c| rest.starts_with(c)) {
            open = false;
            let tok = |class, end| Tok { class, start: i, end, lead: c.len() };
            match arg_len(c, &rest[c.len()..]) {
                Some(n) if c.len() + n <= rest.len() => {
                    let end = i + c.len() + n;
                    let known = match **c {
                        [GS, b'(', b'k'] | [GS, b'(', b'L'] => sub_known(c, s[i + 5], s[i + 6]),
                        [GS, b'8', b'L'] => sub_known(c, s[i + 7], s[i + 8]),
                        _ => true,
                    };
                    out.push(tok(if known { Class::Command } else { Class::Unknown }, end));
                    i = end;
                }
                _ => {
                    out.push(tok(Class::Incomplete, s.len()));
                    i = s.len();
                }
            }
            continue;
        }
        // how far did this look like a command?
        let n = COMMANDS.iter().map(|c| c.iter().zip(rest).take_while(|(a, b)| a == b).count()).max().unwrap();
        if n == rest.len() {
            out.push(Tok { class: Class::Incomplete, start: i, end: s.len(), lead: 0 });
            break;
        }
        let end = i + n + 1;
        if is_intro(s[i]) {
            out.push(Tok { class: Class::Unknown, start: i, end, lead: 0 });
        } else if open {
            out.last_mut().unwrap().end = end;
        } else {
            out.push(Tok { class: Class::Text, start: i, end, lead: 0 });
        }
        open = true;
        i = end;
    }
    out
}

// ------------------------------------------------------------------ printer state

#[derive(Clone, Debug, PartialEq)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub px: Rc<Vec<Px>>,
}
type Gr = Result<Pic, ()>;

#[derive(Clone, Debug)]
struct Symbol {
    dark: Rc<Vec<bool>>,
    width: usize,
    size: i64,
}

#[derive(Clone)]
struct Settings {
    font: u8,
    cw: i64,
    ch: i64,
    table: u8,
    charset: u8,
    just: u8,
    bold: bool,
    italic: bool,
    underline: u8,
    strike: bool,
    invert: bool,
    wm: i64,
    hm: i64,
    upd: bool,
    spacing: i64,
    fg: Px,
    bg: Px,
    tabs: [i64; 32],
    hri: u8,
    bar_w: i64,
    bar_h: i64,
    bar_font: u8,
    symbol: Option<Symbol>,
    qr_model: u8,
    qr_ec: u8,
    qr_size: i64,
    dpi: i64,
    hmu: i64,
    vmu: i64,
}

impl Settings {
    fn power_on() -> Settings {
        Settings {
            font: 0,
            cw: 12,
            ch: 24,
            table: 0,
            charset: 0,
            just: 0,
            bold: false,
            italic: false,
            underline: 0,
            strike: false,
            invert: false,
            wm: 1,
            hm: 1,
            upd: false,
            spacing: 24,
            fg: BLACK,
            bg: WHITE,
            tabs: [8; 32],
            hri: 0,
            bar_w: 3,
            bar_h: 40,
            bar_font: 0,
            symbol: None,
            qr_model: 1,
            qr_ec: 0,
            qr_size: 3,
            dpi: 203,
            hmu: 1,
            vmu: 1,
        }
    }
    fn set_font(&mut self, f: u8) {
        self.font = f;
        (self.cw, self.ch) = if f == 0 { (12, 24) } else { (9, 17) };
    }
}

fn font_number(n: u8) -> u8 {
    match n {
        1 | 49 => 1,
        2 | 50 => 2,
        3 | 51 => 3,
        4 | 52 => 4,
        97 => 5,
        98 => 6,
        _ => 0,
    }
}

#[derive(Clone, Copy, Default, Debug)]
struct Area {
    x: i64,
    y: i64,
    w: i64,
    h: i64,
}

#[derive(Clone, Default)]
struct Page {
    on: bool,
    /// as set, upright
    set: Area,
    /// as drawn into; x and y are the print position
    cur: Area,
    /// size of the page, and the origin of the area drawn into
    all: Area,
    dir: u32,
    before: u32,
}

fn sideways(d: u32) -> bool {
    d == 1 || d == 3
}

/// A problem the job's errors must report.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    Unknown,
    Graphics,
    /// whatever the output device reports for this output
    Device(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Job {
    pub evs: Vec<Ev>,
    pub errs: Vec<Err>,
    pub outputs: usize,
    /// dots of paper and page the devices have to hold
    pub dots: u64,
    pub page_dots: u64,
    pub image_dots: u64,
    /// everything decoded as text, per output, in order of arrival: (page mode, characters)
    pub said: Vec<Vec<(bool, String)>>,
}

pub struct Printer {
    s: Settings,
    x: i64,
    y: i64,
    page: Page,
    nv: BTreeMap<(u8, u8), Gr>,
    download: BTreeMap<(u8, u8), Gr>,
    buffer: Vec<Gr>,
    line: Vec<Span>,
    job: Job,
    dev_errs: u32,
    max_y: i64,
}

fn u16_at(a: &[u8], i: usize) -> i64 {
    a[i] as i64 + 256 * a[i + 1] as i64
}

impl Default for Printer {
    fn default() -> Self {
        Printer {
            s: Settings::power_on(),
            x: 0,
            y: 60,
            page: Page::default(),
            nv: BTreeMap::new(),
            download: BTreeMap::new(),
            buffer: vec![],
            line: vec![],
            job: Job::default(),
            dev_errs: 0,
            max_y: 0,
        }
    }
}

impl Printer {
    pub fn new(dev_errs: u32) -> Printer {
        Printer { dev_errs, ..Default::default() }
    }

    /// The commands that bring a new printer's non-volatile memory to this printer's.
    pub fn nv_keys(&self) -> Vec<((u8, u8), bool)> {
        self.nv.iter().map(|(k, v)| (*k, v.is_ok())).collect()
    }

    pub fn job(&mut self, s: &[u8], debug: [bool; 4]) -> Job {
        self.job = Job { said: vec![vec![]], ..Default::default() };
        self.ev(Ev::Debug(debug));
        self.begin();
        for t in tokenize(s) {
            self.token(&t, s);
        }
        self.flush();
        self.end();
        self.job.said.pop();
        std::mem::take(&mut self.job)
    }

    fn ev(&mut self, e: Ev) {
        self.job.evs.push(e);
    }
    fn err(&mut self, e: Err) {
        self.job.errs.push(e);
    }

    fn begin(&mut self) {
        self.page.on = false;
        self.x = 0;
        self.y = TOP;
        self.max_y = TOP;
        self.ev(Ev::Begin([0, TOP as u32, PRINTABLE as u32, PAPER as u32, MARGIN as u32, MARGIN as u32]));
    }

    fn end(&mut self) {
        let n = self.dev_errs & 3;
        self.dev_errs >>= 2;
        self.ev(Ev::Errs(n));
        self.err(Err::Device(self.job.outputs));
        self.ev(Ev::End(self.y as u32));
        self.job.outputs += 1;
        self.job.said.push(vec![]);
        self.job.dots += (self.max_y.max(self.y) * PAPER) as u64;
    }

    // ---- position

    fn width(&self) -> i64 {
        if self.page.on { self.page.cur.w } else { PRINTABLE }
    }
    fn left(&self) -> i64 {
        if self.page.on { self.page.all.x } else { 0 }
    }
    fn pos(&self) -> (i64, i64) {
        if self.page.on { (self.page.cur.x, self.page.cur.y) } else { (self.x, self.y) }
    }
    fn go(&mut self, x: i64, y: i64) {
        if self.page.on {
            self.page.cur.x = x;
            self.page.cur.y = y;
        } else {
            self.x = x;
            self.y = y;
            self.max_y = self.max_y.max(y);
        }
    }
    /// from the left edge
    fn column(&mut self, x: i64) {
        let (_, y) = self.pos();
        let l = self.left();
        self.go(l + x, y);
    }
    fn right(&mut self, dx: i64) {
        let (x, y) = self.pos();
        self.go(x + dx, y);
    }
    fn down(&mut self, dy: i64) {
        let (x, y) = self.pos();
        self.go(x, y + dy);
    }
    fn room(&self) -> i64 {
        let used = (self.pos().0 - self.left()).max(0);
        (self.width() - used).max(0)
    }
    fn line_end(&mut self, dy: i64) {
        self.column(0);
        self.down(dy);
    }
    fn indent(&self, w: i64) -> i64 {
        let free = self.width() - w;
        if free < 0 {
            return 0;
        }
        match self.s.just {
            1 => free / 2,
            2 => free,
            _ => 0,
        }
    }

    // ---- text

    fn style(&self) -> Span {
        let s = &self.s;
        let dots = |points: i64| (points * s.dpi / 96) as u32;
        let (fg, bg) = if s.invert { (s.bg, s.fg) } else { (s.fg, s.bg) };
        Span {
            text: String::new(),
            font: s.font,
            bw: s.cw as u32,
            bh: s.ch as u32,
            cw: (s.cw * s.wm) as u32,
            ch: (s.ch * s.hm) as u32,
            bold: s.bold,
            italic: s.italic,
            ul: dots(s.underline as i64),
            st: if s.strike { dots(2) } else { 0 },
            sw: s.wm as u32 * 256,
            sh: s.hm as u32 * 256,
            inv: s.invert,
            upd: s.upd,
            just: s.just,
            dim: None,
            bg,
            fg,
        }
    }

    fn say(&mut self, text: String) {
        let on = self.page.on;
        self.job.said.last_mut().unwrap().push((on, text.clone()));
        let mut sp = self.style();
        sp.text = text;
        self.line.push(sp);
    }

    fn decode(&self, b: &[u8]) -> String {
        if self.s.table == 255 {
            return String::from_utf8_lossy(b).into_owned();
        }
        b.iter().map(|b| tables::decode(self.s.table, self.s.charset, *b)).collect()
    }

    fn put_word(&mut self, line: &mut Vec<Span>, style: &Span, text: &[char], advance: bool) {
        let (x, y) = self.pos();
        let w = text.len() as i64 * style.cw as i64;
        let mut sp = style.clone();
        sp.text = text.iter().collect();
        sp.dim = Some([x as u32, y as u32, w as u32, style.ch]);
        line.push(sp);
        if advance {
            self.right(w);
        }
    }

    fn wrap(&mut self, line: &mut Vec<Span>, lines: &mut Vec<Vec<Span>>) {
        let h = line.iter().map(|s| s.ch as i64).chain([self.s.spacing]).max().unwrap();
        self.line_end(h);
        lines.push(std::mem::take(line));
    }

    /// Lay out the text received since the last command that is not about text.
    fn flush(&mut self) {
        if self.line.is_empty() {
            return;
        }
        let spans = std::mem::take(&mut self.line);
        let width = self.width();
        let mut line: Vec<Span> = vec![];
        let mut lines: Vec<Vec<Span>> = vec![];
        for sp in &spans {
            let cw = sp.cw as i64;
            let chars: Vec<char> = sp.text.chars().collect();
            for word in chars.split_inclusive(|c| c.is_whitespace()) {
                let w = word.len() as i64 * cw;
                let room = self.room();
                if word == ['\n'] {
                    self.wrap(&mut line, &mut lines);
                } else if word == ['\t'] {
                    let at = (self.pos().0 - self.left()).max(0);
                    let mut stop = 0;
                    for t in self.s.tabs {
                        if stop > at {
                            self.column(stop);
                            break;
                        }
                        stop += t * cw;
                    }
                } else if w <= room {
                    self.put_word(&mut line, sp, word, true);
                } else if w <= width {
                    self.wrap(&mut line, &mut lines);
                    self.put_word(&mut line, sp, word, true);
                } else {
                    // longer than any line: fill this one, then whole lines
                    let mut rest = &word[(room / cw) as usize..];
                    let first = &word[..(room / cw) as usize];
                    self.put_word(&mut line, sp, first, false);
                    self.wrap(&mut line, &mut lines);
                    let per = (width / cw).max(1) as usize;
                    while rest.len() > per {
                        self.put_word(&mut line, sp, &rest[..per], false);
                        self.wrap(&mut line, &mut lines);
                        rest = &rest[per..];
                    }
                    self.put_word(&mut line, sp, rest, true);
                }
            }
        }
        lines.push(line);
        for l in lines {
            if l.is_empty() {
                continue;
            }
            let j = l[0].just;
            let free = self.width() - l.iter().map(|s| s.dim.unwrap()[2] as i64).sum::<i64>();
            let off = match j {
                1 => free.max(0) / 2,
                2 => free.max(0),
                _ => 0,
            };
            let h = l.iter().map(|s| s.ch).max().unwrap();
            self.ev(Ev::Text(self.page.on, off as u32, h, j, l));
        }
    }

    // ---- one command

    fn token(&mut self, t: &Tok, all: &[u8]) {
        let bytes = &all[t.start..t.end];
        match t.class {
            Class::Text => {
                let text = self.decode(bytes);
                self.say(text);
            }
            Class::Unknown => {
                self.flush();
                self.err(Err::Unknown);
            }
            Class::Incomplete => self.flush(),
            Class::Command => {
                let (c, a) = bytes.split_at(t.lead);
                match c {
                    b"\n" => self.say("\n".into()),
                    b"\r" => self.say("\r".into()),
                    b"\t" => self.say("\t".into()),
                    _ => {
                        if !self.text_setting(c, a) {
                            self.flush();
                            self.command(c, a);
                        }
                    }
                }
            }
        }
    }

    /// Settings of the characters that follow: they do not end the line of text.
    fn text_setting(&mut self, c: &[u8], a: &[u8]) -> bool {
        let s = &mut self.s;
        let odd = a.first().is_some_and(|n| n & 1 == 1);
        match c {
            b"\x1br" => s.fg = if matches!(a[0], 1 | 49) { RED } else { BLACK },
            b"\x1dB" => s.invert = a[0] & 1 == 1,
            b"\x1d!" => {
                s.wm = (a[0] >> 4 & 7) as i64 + 1;
                s.hm = (a[0] & 7) as i64 + 1;
            }
            b"\x1bt" => s.table = a[0],
            b"\x1bR" => s.charset = a[0],
            b"\x1bG" => s.strike = odd,
            b"\x1bE" => s.bold = odd,
            b"\x1b4" => s.italic = odd,
            b"\x1b{" => s.upd = odd,
            b"\x1db" => {}
            b"\x1bM" => s.set_font(font_number(a[0])),
            b"\x1b!" => {
                s.set_font(a[0] & 1);
                s.bold = a[0] & 8 != 0;
                s.hm = if a[0] & 16 != 0 { 2 } else { 1 };
                s.wm = if a[0] & 32 != 0 { 2 } else { 1 };
                s.underline = (a[0] >> 7) & 1;
            }
            b"\x1bD" => {
                if let Some(t) = s.tabs.get_mut(a[1] as usize) {
                    *t = a[0] as i64;
                }
            }
            b"\x1b-" => {
                s.underline = match a[0] {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    _ => 0,
                }
            }
            b"\x1d(N" => match a.get(2..4) {
                Some([48, m]) => s.fg = color(*m),
                Some([49, m]) => s.bg = color(*m),
                _ => {}
            },
            _ => return false,
        }
        true
    }

    fn command(&mut self, c: &[u8], a: &[u8]) {
        match c {
            // settings
            b"\x1b2" => self.s.spacing = 24,
            b"\x1b3" => self.s.spacing = a[0] as i64,
            b"\x1ba" => {
                self.s.just = match a[0] {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    _ => 0,
                }
            }
            b"\x1df" => self.s.bar_font = font_number(a[0]),
            b"\x1dh" => self.s.bar_h = a[0] as i64,
            b"\x1dw" => {
                if a[0] <= 6 {
                    self.s.bar_w = a[0].max(2) as i64;
                }
            }
            b"\x1dH" => {
                self.s.hri = match a[0] {
                    1 | 49 => 1,
                    2 | 50 => 2,
                    3 | 51 => 3,
                    _ => 0,
                }
            }
            b"\x1dP" => {
                if a[0] > 0 && a[1] > 0 {
                    self.s.hmu = (self.s.dpi / a[0] as i64).clamp(1, 255);
                    self.s.vmu = (self.s.dpi / a[1] as i64).clamp(1, 255);
                }
            }
            b"\x1b@" => {
                self.page = Page::default();
                self.s = Settings::power_on();
                self.download.clear();
                self.buffer.clear();
                self.x = 0;
            }

            // motion
            b"\x1b$" => {
                let d = u16_at(a, 0) / self.s.hmu;
                if self.page.on {
                    self.page_x(d);
                } else {
                    self.x = d;
                }
            }
            b"\x1d$" if self.page.on => self.page_y(u16_at(a, 0) / self.s.vmu),
            b"\x1d\\" if self.page.on => {
                let d = (u16_at(a, 0) as u16 as i16) as i64 / self.s.vmu;
                self.page.cur.y = (self.page.cur.y + d).max(0);
            }
            b"\x1bJ" => self.line_end(a[0] as i64),
            b"\x1bd" => self.line_end(self.s.spacing * a[0] as i64),
            b"\x1be" => {
                let (_, y) = self.pos();
                let up = (self.s.spacing * a[0] as i64).min(y);
                self.line_end(-up);
            }
            b"\x1dV" => {
                if matches!(a[0], 0 | 1 | 48 | 49 | 65 | 66 | 97 | 98 | 103 | 104) {
                    self.line_end(2 * self.s.spacing);
                    if a[0] >= 65 {
                        self.line_end(a[1] as i64);
                    }
                }
            }

            // page mode and paper
            b"\x0c" => {
                if self.page.on {
                    self.ev(Ev::PageEnd);
                    self.page.on = false;
                    self.print_page();
                } else {
                    self.end();
                    self.begin();
                }
            }
            b"\x1bL" => {
                self.page = Page { on: true, dir: self.page.dir, before: self.page.before, ..Default::default() };
                self.ev(Ev::PageBegin);
            }
            b"\x1bS" if self.page.on => {
                self.ev(Ev::PageEnd);
                self.page.on = false;
            }
            b"\x1b\x0c" if self.page.on => self.print_page(),
            b"\x1bW" if self.page.on => {
                let x = (u16_at(a, 0) / self.s.hmu).min(PRINTABLE);
                self.page.set = Area {
                    x,
                    y: u16_at(a, 2) / self.s.vmu,
                    w: (u16_at(a, 4) / self.s.hmu).min(PRINTABLE - x),
                    h: u16_at(a, 6) / self.s.vmu,
                };
                self.page.before = self.page.dir;
                self.apply_area();
            }
            b"\x1bT" if self.page.on => {
                self.page.before = self.page.dir;
                self.page.dir = match a[0] {
                    n @ (1..=3 | 49..=51) => n as u32 % 48,
                    _ => 0,
                };
                self.apply_area();
            }

            // things to print
            b"\x1dk" => self.barcode(a),
            b"\x1b*" => {
                let tall = matches!(a[0], 32 | 33);
                let stretch = if matches!(a[0], 0 | 32) { (2, 3) } else { (1, 1) };
                let w = u16_at(a, 1) as usize;
                let g = columns(w, if tall { 24 } else { 8 }, BLACK, &a[3..]).map(|p| scale(p, stretch));
                self.image(g, 0);
            }
            b"\x1dv0" => {
                let stretch = match a[0] {
                    1 | 49 => (2, 1),
                    2 | 50 => (1, 2),
                    3 | 51 => (2, 2),
                    _ => (1, 1),
                };
                let g = rows(u16_at(a, 1) as usize * 8, u16_at(a, 3) as usize, BLACK, &a[5..]).map(|p| scale(p, stretch));
                self.image(g, 1);
            }
            b"\x1d(L" => self.graphics(a[3], &a[4..]),
            b"\x1d8L" => self.graphics(a[5], &a[6..]),
            b"\x1d(k" => {
                if a[2] == 49 {
                    self.qr(a[3], &a[4..]);
                } else if a[3] == 81 {
                    // one memory for the symbols of all kinds; only QR symbols can be stored
                    if let Some(q) = self.s.symbol.clone() {
                        self.symbol(&q);
                    }
                }
            }
            _ => {}
        }
    }

    // ---- page

    fn page_x(&mut self, d: i64) {
        let p = &mut self.page;
        match p.dir {
            0 => p.cur.x = p.all.x + d,
            1 => p.cur.y = p.all.y + d,
            2 => p.cur.x = (p.all.x + p.cur.w - d).max(0),
            _ => p.cur.y = (p.cur.h - d).max(0),
        }
    }
    fn page_y(&mut self, d: i64) {
        let p = &mut self.page;
        match p.dir {
            0 => p.cur.y = p.all.y + d,
            1 => p.cur.x = p.all.x + (p.cur.w - d).max(0),
            2 => p.cur.y = p.all.y + (p.cur.h - d).max(0),
            _ => p.cur.x = p.all.x + d,
        }
    }

    fn apply_area(&mut self) {
        let p = &mut self.page;
        if sideways(p.before) != sideways(p.dir) {
            (p.all.w, p.all.h) = (p.all.h, p.all.w);
        }
        let s = p.set;
        let from_right = |e: i64| (p.all.w - e).max(0);
        p.cur = match p.dir {
            0 => s,
            1 => Area { x: from_right(s.y + s.h), y: s.x, w: s.h, h: s.w },
            2 => Area { x: from_right(s.x + s.w), ..s },
            _ => Area { x: from_right(s.y + s.h), y: (p.all.h - s.x - s.w).max(0), w: s.h, h: s.w },
        };
        p.all = Area {
            x: p.cur.x,
            y: p.cur.y,
            w: p.all.w.max(p.cur.x + p.cur.w),
            h: p.all.h.max(p.cur.y + p.cur.h),
        };
        let turn = (p.dir + 4 - p.before) % 4;
        let (w, h) = (p.all.w, p.all.h);
        self.job.page_dots = self.job.page_dots.max((w * h) as u64);
        self.ev(Ev::PageArea([turn, w as u32, h as u32]));
    }

    fn print_page(&mut self) {
        self.x = 0;
        self.ev(Ev::PrintPage([0, self.y as u32, self.page.dir]));
        let a = self.page.all;
        self.y += if sideways(self.page.dir) { a.w } else { a.h };
        self.max_y = self.max_y.max(self.y);
    }

    // ---- images

    fn image(&mut self, g: Gr, flow: u8) {
        let p = match g {
            Ok(p) => p,
            Err(()) => return self.err(Err::Graphics),
        };
        let (w, h) = (p.w as i64, p.h as i64);
        self.job.image_dots += (w * h) as u64;
        if flow == 0 {
            if w > self.room() {
                self.line_end(self.s.spacing);
            }
        } else if !self.page.on {
            let i = self.indent(w);
            self.column(i);
        }
        let (x, y) = self.pos();
        self.ev(Ev::Image(
            self.page.on,
            Img { x: x as u32, y: y as u32, w: p.w as u32, h: p.h as u32, flow, upd: false, px: p.px.to_vec() },
        ));
        if flow == 0 {
            self.right(w);
        } else if !self.page.on {
            self.max_y = self.max_y.max(self.y + h);
            self.line_end(h);
        }
        if !self.page.on {
            self.max_y = self.max_y.max(y + h);
        }
    }

    fn graphics(&mut self, f: u8, a: &[u8]) {
        let key = a.get(..2).map(|k| (k[0], k[1]));
        match f {
            65 => self.nv.clear(),
            81 => self.download.clear(),
            66 => {
                key.map(|k| self.nv.remove(&k));
            }
            82 => {
                key.map(|k| self.download.remove(&k));
            }
            67 | 68 | 83 | 84 => {
                if a.len() >= 8 {
                    let g = layers(f == 67 || f == 83, a[3], u16_at(a, 4) as usize, u16_at(a, 6) as usize, &a[8..]);
                    let to = if f < 80 { &mut self.nv } else { &mut self.download };
                    to.insert((a[1], a[2]), g);
                }
            }
            112 | 113 => {
                let g = if a.len() < 8 {
                    Err(())
                } else {
                    let (w, h, c) = (u16_at(a, 4) as usize, u16_at(a, 6) as usize, color(a[3]));
                    let g = if f == 112 { rows(w, h, c, &a[8..]) } else { columns(w, h, c, &a[8..]) };
                    g.map(|p| scale(p, (a[1].clamp(1, 2) as usize, a[2].clamp(1, 2) as usize)))
                };
                self.buffer.push(g);
            }
            2 | 50 => {
                let all = std::mem::take(&mut self.buffer);
                if !all.is_empty() {
                    let all: Result<Vec<Pic>, ()> = all.into_iter().collect();
                    self.image(all.and_then(|l| overlay(&l)), 1);
                }
            }
            69 | 85 => {
                let from = if f == 69 { &self.nv } else { &self.download };
                if let Some(g) = key.and_then(|k| from.get(&k)) {
                    let g = g.clone();
                    self.image(g, 1);
                }
            }
            1 | 49 => match (a.first().unwrap_or(&50), a.get(1).unwrap_or(&50)) {
                (50, 50) => self.s.dpi = 180,
                (51, 51) => self.s.dpi = 360,
                _ => {}
            },
            _ => {}
        }
    }

    // ---- symbols

    fn qr(&mut self, f: u8, a: &[u8]) {
        match f {
            65 => {
                self.s.qr_model = match a.first() {
                    Some(50) => 2,
                    Some(51) => 3,
                    _ => 1,
                }
            }
            67 => self.s.qr_size = *a.first().unwrap_or(&1) as i64,
            69 => {
                self.s.qr_ec = match a.first() {
                    Some(1 | 49) => 1,
                    Some(2 | 50) => 2,
                    Some(3 | 51) => 3,
                    _ => 0,
                }
            }
            80 => {
                let size = self.s.qr_size;
                self.s.symbol = crate::symbols::qr(self.s.qr_model, self.s.qr_ec, a)
                    .map(|(dark, width)| Symbol { dark: Rc::new(dark), width, size });
            }
            81 => match self.s.symbol.clone() {
                None => self.err(Err::Graphics),
                Some(q) => self.symbol(&q),
            },
            _ => {}
        }
    }

    fn symbol(&mut self, q: &Symbol) {
        let left = self.indent(q.width as i64 * q.size);
        let mut rects = vec![];
        for row in q.dark.chunks(q.width) {
            self.column(left);
            for dark in row {
                if *dark && self.room() >= q.size {
                    let (x, y) = self.pos();
                    rects.push([x as u32, y as u32, q.size as u32, q.size as u32]);
                }
                self.right(q.size);
            }
            self.down(q.size);
        }
        self.column(0);
        self.ev(Ev::Gfx(self.page.on, self.s.fg, rects));
    }

    fn barcode(&mut self, a: &[u8]) {
        let data: &[u8] = match a[0] {
            0..=6 => &a[1..a.len() - 1],
            65..=79 => &a[2..],
            _ => &[],
        };
        let (bars, text) = match crate::symbols::barcode(a[0], data) {
            Some(b) => b,
            None => return self.err(Err::Graphics),
        };
        if self.s.hri & 1 != 0 {
            self.hri(&text);
        }
        let (w, h) = (self.s.bar_w, self.s.bar_h);
        let left = self.indent(bars.len() as i64 * w);
        self.column(left);
        let mut rects = vec![];
        for bar in &bars {
            if *bar {
                if self.room() < w {
                    continue;
                }
                let (x, y) = self.pos();
                rects.push([x as u32, y as u32, w as u32, h as u32]);
            }
            self.right(w);
        }
        self.ev(Ev::Gfx(self.page.on, self.s.fg, rects));
        self.line_end(h);
        if self.s.hri & 2 != 0 {
            self.down(8);
            self.hri(&text);
        }
    }

    fn hri(&mut self, text: &str) {
        self.say(text.to_string());
        self.line.last_mut().unwrap().font = self.s.bar_font;
        self.flush();
        self.line_end(self.s.spacing);
    }
}

// ------------------------------------------------------------------ pictures

fn paint(on: bool, c: Px) -> Px {
    if on { c } else { [0; 4] }
}

/// One colour, rows of bits padded to bytes.
fn rows(w: usize, h: usize, c: Px, d: &[u8]) -> Gr {
    let stride = (w + 7) / 8;
    if w == 0 || h == 0 || d.len() != stride * h {
        return Err(());
    }
    let px = (0..h)
        .flat_map(|y| (0..w).map(move |x| paint(d[y * stride + x / 8] & (0x80 >> (x % 8)) != 0, c)))
        .collect();
    Ok(Pic { w, h, px: Rc::new(px) })
}

/// One colour, columns of bits padded to bytes.
fn columns(w: usize, h: usize, c: Px, d: &[u8]) -> Gr {
    let stride = (h + 7) / 8;
    if w == 0 || h == 0 || d.len() != stride * w {
        return Err(());
    }
    let px = (0..h)
        .flat_map(|y| (0..w).map(move |x| paint(d[x * stride + y / 8] & (0x80 >> (y % 8)) != 0, c)))
        .collect();
    Ok(Pic { w, h, px: Rc::new(px) })
}

/// Several colours, each a colour byte and its bits.
fn layers(by_rows: bool, n: u8, w: usize, h: usize, d: &[u8]) -> Gr {
    let per = 1 + if by_rows { (w + 7) / 8 * h } else { (h + 7) / 8 * w };
    if n == 0 || d.len() != per * n as usize {
        return Err(());
    }
    let all: Result<Vec<Pic>, ()> = d
        .chunks(per)
        .map(|l| if by_rows { rows(w, h, color(l[0]), &l[1..]) } else { columns(w, h, color(l[0]), &l[1..]) })
        .collect();
    overlay(&all?)
}

fn overlay(l: &[Pic]) -> Gr {
    let mut base = l[0].px.to_vec();
    for p in &l[1..] {
        if p.w > l[0].w || p.h > l[0].h {
            return Err(());
        }
        for y in 0..p.h {
            for x in 0..p.w {
                let c = p.px[y * p.w + x];
                if c[3] != 0 {
                    base[y * l[0].w + x] = c;
                }
            }
        }
    }
    Ok(Pic { w: l[0].w, h: l[0].h, px: Rc::new(base) })
}

fn scale(p: Pic, by: (usize, usize)) -> Pic {
    if by == (1, 1) {
        return p;
    }
    let (w, h) = (p.w * by.0, p.h * by.1);
    let px = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| p.px[y / by.1 * p.w + x / by.0]).collect();
    Pic { w, h, px: Rc::new(px) }
}
