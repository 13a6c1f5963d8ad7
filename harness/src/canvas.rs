//! Drives the real Canvas: drawing, clipping and flushing.  Flushed bytes are captured from fd 1 and
//! tokenised; the specification's terminal replays them.
use crate::common::*;
use crate::strip::{clusters, glyph};
use crossterm::style::Color;
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::segment::{Segment, Style};
use textual::strip::Strip;

#[derive(Clone, Copy)]
pub struct Paint { fg: u8, kind: u8, bg: u8, at: u8 }
fn grey(n: u8, a: f32) -> RgbaColor { RgbaColor::rgba(n, n, n, a) }
impl Paint {
    fn rand(r: &mut Rng, halves: &mut u32) -> Paint {
        let lv = [64u8, 128, 192];
        let fg = if r.chance(1, 3) { 0 } else { *r.pick(&lv) };
        let mut kind = r.below(4) as u8;
        if kind == 3 { kind = 0 }
        if kind == 1 { if *halves == 0 { kind = 0 } else { *halves -= 1 } }
        let bg = if kind != 2 && r.chance(1, 3) { 0 } else if kind == 2 { 0 } else { *r.pick(&lv) };
        let at = if r.chance(1, 2) { 0 } else { r.below(64) as u8 };
        Paint { fg, kind, bg, at }
    }
    fn j(&self) -> Value { json!([self.fg, self.kind, self.bg, self.at]) }
    fn fg(&self) -> Option<RgbaColor> { (self.fg > 0).then(|| grey(self.fg, 1.0)) }
    fn bg(&self) -> Option<RgbaColor> {
        match self.kind { 2 => Some(grey(77, 0.0)), _ if self.bg == 0 => None, 1 => Some(grey(self.bg, 0.5)), _ => Some(grey(self.bg, 1.0)) }
    }
    fn attrs(&self) -> TextAttributes {
        let a = self.at;
        TextAttributes { bold: a & 1 != 0, dim: a & 2 != 0, italic: a & 4 != 0, underline: a & 8 != 0, strike: a & 16 != 0, reverse: a & 32 != 0 }
    }
    fn style(&self) -> Style {
        let a = self.attrs();
        Style { fg: self.fg(), bg: self.bg(), bold: a.bold, dim: a.dim, italic: a.italic, underline: a.underline, strike: a.strike, reverse: a.reverse }
    }
}
fn text(r: &mut Rng, n: usize) -> Vec<u32> {
    (0..n).map(|_| *r.pick(&[0u32, 1, 2, 3, 4, 6, 100, 101, 102, 1, 2, 100])).collect()
}
fn gstr(v: &[u32]) -> String { v.iter().map(|&g| glyph(g)).collect() }
fn col(c: Option<Color>) -> i64 {
    match c { None => 0, Some(Color::Rgb { r, g, b }) if r == g && g == b => r as i64, Some(_) => -1 }
}
fn grid(c: &Canvas) -> Value {
    let (w, h) = c.size();
    let n = w as usize * h as usize;
    Value::Array((0..n).map(|i| {
        let k = c.cell_at(i);
        let g = if k.continuation { 0 } else { let v = clusters(&k.symbol); if v.len() == 1 { v[0].0 } else { -5 } };
        let a = k.attrs;
        let at = a.bold as i64 | (a.dim as i64) << 1 | (a.italic as i64) << 2 | (a.underline as i64) << 3 | (a.strike as i64) << 4 | (a.reverse as i64) << 5;
        json!([g, k.width, k.continuation as u8, col(k.fg), col(k.bg), at])
    }).collect())
}

/// bytes written to stdout by f
pub struct Capture { file: std::fs::File, saved: i32 }
impl Capture {
    pub fn new() -> Self {
        let path = format!("cap-{}.bin", std::process::id());
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("cap");
        let _ = std::fs::remove_file(&path);
        Capture { file, saved: unsafe { libc::dup(1) } }
    }
    pub fn run<T>(&mut self, f: impl FnOnce() -> T) -> (Option<T>, Vec<u8>) {
        self.file.set_len(0).unwrap();
        self.file.seek(SeekFrom::Start(0)).unwrap();
        unsafe { libc::dup2(self.file.as_raw_fd(), 1) };
        let r = guard(f);
        unsafe { libc::dup2(self.saved, 1) };
        let mut v = vec![];
        self.file.seek(SeekFrom::Start(0)).unwrap();
        self.file.read_to_end(&mut v).unwrap();
        (r, v)
    }
}

fn tokens(b: &[u8]) -> Vec<Value> {
    let s = String::from_utf8_lossy(b).into_owned();
    let mut out = vec![];
    let mut rest = &s[..];
    let mut plain = String::new();
    let flushp = |p: &mut String, out: &mut Vec<Value>| { for (g, _) in clusters(p) { out.push(json!([5, g])); } p.clear(); };
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("\x1b[") {
            flushp(&mut plain, &mut out);
            let e = match r.find(|c: char| ('@'..='~').contains(&c)) { Some(e) => e, None => { out.push(json!([99, 0])); break; } };
            let (args, fin) = (&r[..e], r.as_bytes()[e] as char);
            rest = &r[e + 1..];
            let n: Vec<i64> = args.split(';').map(|x| x.parse().unwrap_or(0)).collect();
            match fin {
                'H' => out.push(json!([0, n.get(1).copied().unwrap_or(1).max(1) - 1, n[0].max(1) - 1])),
                'm' => {
                    let mut i = 0;
                    while i < n.len() {
                        match n[i] {
                            0 => out.push(json!([1, 0])),
                            39 => out.push(json!([2, 0])),
                            49 => out.push(json!([3, 0])),
                            38 | 48 if n.get(i + 1) == Some(&2) && n.len() >= i + 5 => {
                                let c = if n[i + 2] == n[i + 3] && n[i + 3] == n[i + 4] { n[i + 2] } else { -1 };
                                out.push(json!([if n[i] == 38 { 2 } else { 3 }, c]));
                                i += 4;
                            }
                            k @ (1 | 2 | 3 | 4 | 9 | 7) => out.push(json!([4, match k { 1 => 1, 2 => 2, 3 => 4, 4 => 8, 9 => 16, _ => 32 }])),
                            _ => out.push(json!([99, n[i]])),
                        }
                        i += 1;
                    }
                }
                _ => out.push(json!([99, 1])),
            }
        } else {
            let c = rest.chars().next().unwrap();
            plain.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    flushp(&mut plain, &mut out);
    out
}

#[derive(Clone)]
enum D {
    Put { x: i64, y: i64, g: Vec<u32>, p: Paint, ch: bool },
    Strips { x: i64, y: i64, s: Vec<Vec<(Vec<u32>, Paint)>> },
    Push([i64; 4]),
    Pop,
}
fn gen(r: &mut Rng, w: i64, h: i64, halves: &mut u32) -> D {
    let far = |r: &mut Rng, v: i64| if r.chance(1, 40) { if r.chance(1, 2) { 1_000_000_000 } else { -1_000_000_000 } } else { v };
    let (mut x, mut y) = (r.range(-3, w + 1), r.range(-1, h));
    x = far(r, x); y = far(r, y);
    match r.below(10) {
        0 | 1 => { let p = Paint::rand(r, halves); D::Put { x, y, g: vec![*r.pick(&[0u32, 0, 1, 2, 100, 101, 3])], p, ch: true } }
        2..=4 => { let p = Paint::rand(r, halves); let n = r.below(w as usize + 3); D::Put { x, y, g: text(r, n), p, ch: false } }
        5 | 6 => {
            let s = (0..r.range(1, 3)).map(|_| (0..r.range(0, 3)).map(|_| { let p = Paint::rand(r, halves); let n = r.below(4); (text(r, n), p) }).collect()).collect();
            D::Strips { x, y, s }
        }
        7 | 8 => D::Push([r.range(-2, w), r.range(-2, h), r.range(0, w + 2), r.range(0, h + 2)]),
        _ => D::Pop,
    }
}
/// the same drawing with one small difference
fn tweak(r: &mut Rng, d: &D, halves: &mut u32) -> D {
    let mut d = d.clone();
    fn tp(r: &mut Rng, p: &mut Paint, halves: &mut u32) {
        let q = Paint::rand(r, halves);
        match r.below(4) { 0 => p.fg = q.fg, 1 => { p.bg = q.bg; p.kind = q.kind } _ => p.at ^= 1 << r.below(6) }
    }
    match &mut d {
        D::Put { x, g, p, .. } => match r.below(4) {
            0 => *x += 1,
            1 if !g.is_empty() => { let k = r.below(g.len()); g[k] = *r.pick(&[0u32, 1, 2, 100, 101]); }
            _ => tp(r, p, halves),
        },
        D::Strips { x, s, .. } => {
            if r.chance(1, 4) { *x += 1 }
            for row in s.iter_mut() { for (_, p) in row.iter_mut() { if r.chance(1, 2) { tp(r, p, halves) } } }
        }
        D::Push(q) => { let k = r.below(4); q[k] = (q[k] + 1).max(0); }
        D::Pop => {}
    }
    d
}
fn apply(c: &mut Canvas, d: &D) -> (Value, bool) {
    match d {
        D::Put { x, y, g, p, ch } => {
            let ok = if *ch { guard(|| c.put_char(*x as i32, *y as i32, gstr(g).chars().next().unwrap(), p.fg(), p.bg(), p.attrs())) }
                else { guard(|| c.put_str(*x as i32, *y as i32, &gstr(g), p.fg(), p.bg(), p.attrs())) };
            (json!({"op":"put","x":x,"y":y,"g":g,"p":p.j()}), ok.is_some())
        }
        D::Strips { x, y, s } => {
            let ss: Vec<Strip> = s.iter().map(|row| Strip::from_segments(row.iter().map(|(v, p)| Segment::styled(gstr(v), p.style())).collect())).collect();
            let ok = guard(|| c.render_strips(&ss, *x as i32, *y as i32));
            let js: Vec<Value> = s.iter().map(|row| Value::Array(row.iter().map(|(v, p)| json!([v, p.j()])).collect())).collect();
            (json!({"op":"strips","x":x,"y":y,"s":js}), ok.is_some())
        }
        D::Push(q) => { let ok = guard(|| c.push_clip(Region::new(q[0] as i32, q[1] as i32, q[2] as i32, q[3] as i32))); (json!({"op":"push","r":q}), ok.is_some()) }
        D::Pop => { let ok = guard(|| c.pop_clip()); (json!({"op":"pop"}), ok.is_some()) }
    }
}
fn draw(r: &mut Rng, c: &mut Canvas, w: i64, h: i64, halves: &mut u32) -> (Value, bool) {
    let d = gen(r, w, h, halves);
    apply(c, &d)
}

pub fn run_draw(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xCA);
    for i in 0..(if a.thorough { 16000 } else { 2000 }) {
        let (w, h) = (r.range(1, 8), r.range(1, 3));
        let mut c = Canvas::new(w as u16, h as u16);
        let mut steps = vec![];
        let mut halves = 5;
        for _ in 0..r.range(4, 14) {
            let (mut e, ok) = if r.chance(1, 30) { halves = 5; let ok = guard(|| c.clear()); (json!({"op":"clear"}), ok.is_some()) } else { draw(&mut r, &mut c, w, h, &mut halves) };
            e["panic"] = json!(!ok as u8);
            if ok { e["grid"] = grid(&c); }
            steps.push(e);
            if !ok { break; }
        }
        out.line(&json!({"W": w, "H": h, "steps": steps, "id": i}));
    }
    // large surfaces (terminals with more than 65535 cells)
    for (w, h) in [(300u16, 300u16), (512, 128), (1000, 70), (65535, 1)] {
        let res = guard(|| {
            let mut c = Canvas::new(w, h);
            c.put_char(w as i32 - 1, h as i32 - 1, 'a', None, None, TextAttributes::default());
            c.get_char(w as i32 - 1, h as i32 - 1) == 'a' && c.cell_at(w as usize * h as usize - 1).symbol == "a" && c.cell_at(0).symbol == " "
        });
        out.line(&json!({"W": 1, "H": 1, "big": [w, h], "steps": [{"op":"pop","panic": (res != Some(true)) as u8}]}));
    }
}

pub fn run_flush(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xF1);
    let mut cap = Capture::new();
    for i in 0..(if a.thorough { 8000 } else { 900 }) {
        let (w, h) = (r.range(1, 7), r.range(1, 3));
        let mut c = Canvas::new(w as u16, h as u16);
        let mut steps = vec![];
        let mut last: Vec<D> = vec![];
        'case: for _ in 0..r.range(2, 6) {
            if r.chance(1, 8) { steps.push(json!({"op":"garble","panic":0})); c.invalidate(); }
            let mut halves = 5;
            let ok = guard(|| c.clear()).is_some();
            steps.push(json!({"op":"clear","panic":!ok as u8}));
            // a fresh frame, or the last one with small differences
            if last.is_empty() || r.chance(1, 3) {
                last = (0..r.range(0, 5)).map(|_| gen(&mut r, w, h, &mut halves)).collect();
            } else {
                for k in 0..last.len() {
                    if r.chance(1, 3) { last[k] = tweak(&mut r, &last[k], &mut halves); }
                }
                if r.chance(1, 8) { last.pop(); }
                let hs = last.iter().filter(|d| matches!(d, D::Put { p, .. } if p.kind == 1) || matches!(d, D::Strips { s, .. } if s.iter().flatten().any(|(_, p)| p.kind == 1))).count();
                if hs > 3 { last.clear(); }
            }
            for d in &last {
                let (mut e, ok) = apply(&mut c, d);
                e["panic"] = json!(!ok as u8);
                steps.push(e);
                if !ok { break 'case; }
            }
            let g = grid(&c);
            let (res, bytes) = cap.run(|| c.flush().is_ok());
            let mut e = json!({"op":"flush","panic":(res != Some(true)) as u8,"k":tokens(&bytes)});
            e["grid"] = g;
            steps.push(e);
        }
        out.line(&json!({"W": w, "H": h, "steps": steps, "id": i}));
    }
}
