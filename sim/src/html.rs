//! Reads an HTML receipt back, and says what it should have shown.

use crate::compose::Page;
use crate::types::*;
use base64::Engine;

pub static TEMPLATE: &str = include_str!("/repo/thermal_renderer/resources/templates/thermal.html");

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    /// left, top, classes (sorted), text
    Text(i64, i64, Vec<String>, String),
    /// left, width, height, colour and rectangles
    Svg(i64, i64, i64, Vec<(String, Rect)>),
    /// left, width, dots (w, h, rgba)
    Img(i64, i64, u32, u32, Vec<Px>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub y: i64,
    pub h: i64,
    pub els: Vec<El>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub rows: Vec<Row>,
    pub width: i64,
    pub left: i64,
    pub right: i64,
    pub bottom: i64,
}

fn hex(c: &Px) -> String {
    format!("#{:02X}{:02X}{:02X}{:02X}", c[0], c[1], c[2], c[3])
}

/// The template with its colours, split around the style and the content of the receipt.
fn frame() -> (String, String, String) {
    let colors = [[255u8; 4], [0, 0, 0, 255], [158, 22, 22, 255], [27, 57, 169, 255]];
    let mut t = TEMPLATE.to_string();
    for (i, c) in colors.iter().enumerate() {
        t = t.replace(&format!("{{{{color-{i}}}}}"), &hex(c));
    }
    let (a, b) = t.split_once("{{receipt-style}}").unwrap_or((&t, ""));
    let (b, c) = b.split_once("{{content}}").unwrap_or((b, ""));
    (a.into(), b.into(), c.into())
}

struct Cur<'a>(&'a str);

impl<'a> Cur<'a> {
    fn eat(&mut self, s: &str) -> Result<(), String> {
        match self.0.strip_prefix(s) {
            Some(r) => {
                self.0 = r;
                Ok(())
            }
            None => Err(format!("expected {:?} at {:?}", s, self.0.chars().take(60).collect::<String>())),
        }
    }
    fn until(&mut self, s: &str) -> Result<&'a str, String> {
        let i = self.0.find(s).ok_or_else(|| format!("no {s:?}"))?;
        let a = &self.0[..i];
        self.0 = &self.0[i + s.len()..];
        Ok(a)
    }
    /// an opening tag: name and attributes
    fn tag(&mut self) -> Result<(&'a str, Vec<(&'a str, &'a str)>), String> {
        self.eat("<")?;
        let body = self.until(">")?;
        let body = body.trim_end_matches('/');
        let n = body.find(|c: char| c.is_whitespace()).unwrap_or(body.len());
        let (name, mut rest) = body.split_at(n);
        let mut attrs = vec![];
        loop {
            rest = rest.trim_start();
            if rest.is_empty() {
                return Ok((name, attrs));
            }
            let (k, r) = rest.split_once('=').ok_or("attribute without value")?;
            let q = r.chars().next().filter(|c| matches!(c, '\'' | '"')).ok_or("attribute without quotes")?;
            let (v, r) = r[1..].split_once(q).ok_or("attribute without end")?;
            attrs.push((k.trim(), v));
            rest = r;
        }
    }
}

fn attr<'a>(a: &[(&'a str, &'a str)], k: &str) -> Result<&'a str, String> {
    a.iter().find(|x| x.0 == k).map(|x| x.1).ok_or_else(|| format!("no attribute {k}"))
}
fn style(a: &[(&str, &str)], k: &str) -> Result<i64, String> {
    css(attr(a, "style")?, k)
}
fn css(s: &str, k: &str) -> Result<i64, String> {
    s.split(';')
        .filter_map(|p| p.split_once(':'))
        .find(|p| p.0.trim() == k)
        .and_then(|p| p.1.trim().strip_suffix("px")?.trim().parse().ok())
        .ok_or_else(|| format!("no {k} in {s:?}"))
}
fn num(a: &[(&str, &str)], k: &str) -> Result<i64, String> {
    attr(a, k)?.trim_end_matches("px").parse().map_err(|_| format!("{k} is not a number"))
}

fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>']) {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let known = [
            ("&lt;", '<'),
            ("&gt;", '>'),
            ("&amp;", '&'),
            ("&quot;", '"'),
            ("&#39;", '\''),
            ("&apos;", '\''),
            ("&#x27;", '\''),
            ("&#123;", '{'),
            ("&#125;", '}'),
            ("&nbsp;", '\u{a0}'),
        ];
        match known.iter().find(|k| rest.starts_with(k.0)) {
            Some((k, c)) => {
                out.push(*c);
                rest = &rest[k.len()..];
            }
            None => return Err(format!("markup in text: {:?}", s.chars().take(60).collect::<String>())),
        }
    }
    out.push_str(rest);
    Ok(out)
}

fn png(b64: &str) -> Result<(u32, u32, Vec<Px>), String> {
    let b64: String = b64.chars().filter(|c| !c.is_whitespace() && *c != '=').collect();
    let data = base64::engine::general_purpose::STANDARD_NO_PAD.decode(b64).map_err(|e| e.to_string())?;
    let mut r = png::Decoder::new(&data[..]).read_info().map_err(|e| e.to_string())?;
    let mut buf = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
    if i.color_type != png::ColorType::Rgba || i.bit_depth != png::BitDepth::Eight {
        return Err("not an rgba image".into());
    }
    let px = buf[..i.buffer_size()]
        .chunks(4)
        .map(|p| if p[3] == 0 { [0; 4] } else { [p[0], p[1], p[2], p[3]] })
        .collect();
    Ok((i.width, i.height, px))
}

/// Is this the template with everything filled in?
pub fn filled(doc: &str) -> Result<(), String> {
    let (a, b, c) = frame();
    let rest = doc.strip_prefix(&a[..]).ok_or("the document does not start with the filled template")?;
    let i = rest.find(&b).ok_or("the receipt style is not filled in")?;
    if !rest[i + b.len()..].ends_with(&c) {
        return Err("the document does not end with the template".into());
    }
    if rest[..i].contains("{{") || rest[..i].trim().is_empty() {
        return Err("the receipt style is not filled in".into());
    }
    Ok(())
}

pub fn read(doc: &str) -> Result<Doc, String> {
    let (a, b, c) = frame();
    let mut cur = Cur(doc);
    cur.eat(&a).map_err(|_| "the document does not start with the filled template".to_string())?;
    let i = cur.0.find(&b).ok_or("the receipt style is not filled in")?;
    let st = &cur.0[..i];
    cur.0 = &cur.0[i + b.len()..];
    let content = cur.0.strip_suffix(&c[..]).ok_or("the document does not end with the template")?;
    let mut cur = Cur(content);
    let mut rows = vec![];
    let mut last = 0;
    loop {
        cur.0 = cur.0.trim_start();
        if cur.0.is_empty() {
            break;
        }
        let (name, at) = cur.tag()?;
        if name != "p" {
            return Err(format!("row is a {name}"));
        }
        let y = last + style(&at, "margin-top")?;
        let h = style(&at, "height")?;
        last = y + h;
        let mut els = vec![];
        loop {
            let ws = cur.0.trim_start();
            if let Some(r) = ws.strip_prefix("</p>") {
                cur.0 = r;
                break;
            }
            cur.0 = ws;
            let (name, at) = cur.tag()?;
            match name {
                "span" => {
                    let text = unescape(cur.until("</span>")?)?;
                    let mut cl: Vec<String> = attr(&at, "class")?.split_whitespace().map(|s| s.into()).collect();
                    cl.sort();
                    els.push(El::Text(style(&at, "left")?, style(&at, "top")?, cl, text));
                }
                "img" => {
                    let src = attr(&at, "src")?.strip_prefix("data:image/png;base64,").ok_or("not a png")?;
                    let (w, h, px) = png(src)?;
                    els.push(El::Img(style(&at, "left")?, num(&at, "width")?, w, h, px));
                }
                "svg" => {
                    let mut body = Cur(cur.until("</svg>")?);
                    let mut rects = vec![];
                    loop {
                        body.0 = body.0.trim_start();
                        if body.0.is_empty() {
                            break;
                        }
                        let (n, a) = body.tag()?;
                        if n != "rect" {
                            return Err(format!("{n} in svg"));
                        }
                        let v = |k| num(&a, k).map(|v| v as u32);
                        rects.push((attr(&a, "fill")?.to_string(), [v("x")?, v("y")?, v("width")?, v("height")?]));
                    }
                    rects.sort();
                    els.push(El::Svg(style(&at, "left")?, num(&at, "width")?, num(&at, "height")?, rects));
                }
                n => return Err(format!("{n} in a row")),
            }
        }
        rows.push(Row { y, h, els });
    }
    Ok(Doc {
        rows,
        width: css(st, "width")?,
        left: css(st, "padding-left")?,
        right: css(st, "padding-right")?,
        bottom: css(st, "padding-bottom")?,
    })
}

fn text_el(off: u32, line_h: u32, s: &Span) -> El {
    let top = (line_h as f32 * 0.78 - s.ch as f32 * 0.78) as u32;
    let mut cl: Vec<String> = vec![];
    let mut add = |on: bool, c: &str| {
        if on {
            cl.push(c.into());
        }
    };
    let (w, h) = (s.sw / 256, s.sh / 256);
    add(s.bold, "b");
    add(s.italic, "i");
    add(s.st > 0, "s");
    add(s.st > 1, "sd");
    add((2..=8).contains(&w), &format!("w{w}"));
    add((2..=8).contains(&h), &format!("h{h}"));
    add((2..=8).contains(&w) || (2..=8).contains(&h), "str");
    add(s.ul > 0, "u");
    add(s.ul > 1, "ud");
    add(s.upd, "upd");
    add(s.font == 1, "fb");
    add(s.font == 2, "fc");
    let n = |c: &Px| match c {
        [0, 0, 0, 255] => 1,
        [158, 22, 22, 255] => 2,
        [27, 57, 169, 255] => 3,
        _ => 0,
    };
    add(n(&s.fg) != 1, &format!("fg_{}", n(&s.fg)));
    add(n(&s.bg) != 0, &format!("bg_{}", n(&s.bg)));
    cl.sort();
    let x = s.dim.map(|d| d[0]).unwrap_or(0);
    El::Text((off + x) as i64, top as i64, cl, s.text.clone())
}

fn img_row(x: u32, y: u32, w: u32, h: u32, px: &[Px]) -> Row {
    let px = px.iter().map(|p| if p[3] == 0 { [0; 4] } else { *p }).collect();
    Row { y: y as i64, h: h as i64, els: vec![El::Img(x as i64, w as i64, w, h, px)] }
}

/// The document each output of a job should be, and what its page reports.
pub fn expected(evs: &[Ev]) -> Vec<(Doc, u32)> {
    let mut out = vec![];
    let mut rows: Vec<Row> = vec![];
    let mut page = Page::new([false; 4]);
    let mut debug = [false; 4];
    let (mut width, mut left, mut right) = (0, 0, 0);
    for e in evs {
        if page.take(e) {
            continue;
        }
        match e {
            Ev::Debug(d) => debug = *d,
            Ev::Begin(a) => {
                let errs = page.c.errs;
                page = Page::new(debug);
                page.c.errs = errs;
                (width, left, right) = (a[3] as i64, a[4] as i64, a[5] as i64);
                rows = vec![Row { y: 0, h: a[1] as i64, els: vec![] }];
            }
            Ev::PrintPage([x, y, dir]) => {
                let (w, h, px) = page.upright(*dir);
                if w > 0 && h > 0 {
                    rows.push(img_row(*x, *y, w, h, &px));
                }
            }
            Ev::Image(false, i) => rows.push(img_row(i.x, i.y, i.w, i.h, &i.px)),
            Ev::Gfx(false, c, r) if !r.is_empty() => {
                let x = r.iter().map(|r| r[0]).min().unwrap();
                let y = r.iter().map(|r| r[1]).min().unwrap();
                let w = r.iter().map(|r| r[0] + r[2]).max().unwrap() - x;
                let h = r.iter().map(|r| r[1] + r[3]).max().unwrap() - y;
                let mut l: Vec<(String, Rect)> =
                    r.iter().map(|r| (hex(c), [r[0] - x, r[1] - y, r[2], r[3]])).collect();
                l.sort();
                rows.push(Row { y: y as i64, h: h as i64, els: vec![El::Svg(x as i64, w as i64, h as i64, l)] });
            }
            Ev::Text(false, off, h, _, spans) if !spans.is_empty() => rows.push(Row {
                y: spans.iter().map(|s| s.dim.map(|d| d[1]).unwrap_or(0)).min().unwrap() as i64,
                h: spans.iter().map(|s| s.ch).max().unwrap() as i64,
                els: spans.iter().map(|s| text_el(*off, *h, s)).collect(),
            }),
            Ev::End(y) => {
                let last = rows.last().map(|r| r.y + r.h).unwrap_or(0);
                let doc = Doc {
                    rows: std::mem::take(&mut rows),
                    width,
                    left,
                    right,
                    bottom: (*y as i64 - last).max(0),
                };
                out.push((doc, std::mem::take(&mut page.c.errs)));
            }
            _ => {}
        }
    }
    out
}

impl Doc {
    pub fn images(&self) -> Vec<(i64, &El)> {
        self.rows.iter().flat_map(|r| r.els.iter().filter(|e| matches!(e, El::Img(..))).map(move |e| (r.y, e))).collect()
    }
    pub fn text(&self) -> String {
        self.rows
            .iter()
            .flat_map(|r| &r.els)
            .filter_map(|e| match e {
                El::Text(_, _, _, t) => Some(t.as_str()),
                _ => None,
            })
            .collect()
    }
}

pub fn differ(a: &Doc, b: &Doc) -> Option<String> {
    let show = |r: &Row| {
        let mut s = format!("{r:?}");
        if s.len() > 300 {
            s = s.chars().take(300).collect();
        }
        s
    };
    if (a.width, a.left, a.right) != (b.width, b.left, b.right) {
        return Some("the paper is not as wide as its settings".into());
    }
    for (i, (x, y)) in a.rows.iter().zip(&b.rows).enumerate() {
        if x != y {
            return Some(format!("row {i}: {} instead of {}", show(x), show(y)));
        }
    }
    if a.rows.len() != b.rows.len() {
        return Some(format!("{} rows instead of {}", a.rows.len(), b.rows.len()));
    }
    if a.bottom != b.bottom {
        return Some(format!("{} dots below the last row instead of {}", a.bottom, b.bottom));
    }
    None
}
