//! Keylines of real grids, rows and columns of probe leaves; rectangles joined on a keyline canvas; the glyph table.
use crate::common::*;
use crate::layout::{kid, par, Kid, Len, Par};
use crate::probe::*;
use serde_json::{json, Value};
use tcss::types::keyline::{Keyline, KeylineStyle};
use tcss::types::{Overflow, RgbaColor};
use tcss::ComputedStyle;
use textual::box_drawing::get_box_char;
use textual::canvas::{Canvas, Region};
use textual::containers::container::Container;
use textual::containers::grid::Grid;
use textual::keyline_canvas::KeylineCanvas;
use textual::Widget;

const LINE: (u8, u8, u8) = (250, 3, 255);
const STYLES: [KeylineStyle; 4] = [KeylineStyle::None, KeylineStyle::Thin, KeylineStyle::Heavy, KeylineStyle::Double];

/// Per cell: a line's character, minus the number of the probe seen, 0 when untouched, 1 for anything else.
fn read(c: &Canvas) -> Vec<Vec<i64>> {
    let (w, h) = c.size();
    (0..h as usize).map(|y| (0..w as usize).map(|x| {
        let cell = c.cell_at(y * w as usize + x);
        if let Some((n, ..)) = who(c, x as i32, y as i32) { return -(n as i64); }
        let ch = cell.symbol.chars().next().unwrap_or(' ');
        match cell.fg {
            Some(crossterm::style::Color::Rgb { r, g, b }) if (r, g, b) == LINE && cell.bg.is_none() => ch as i64,
            None if ch == ' ' => 0,
            _ => 1,
        }
    }).collect()).collect()
}

fn child(r: &mut Rng, lay: &str) -> Kid {
    let mut k = kid(r, lay, true);
    if k.dw == u16::MAX { k.dw = 5; }
    if k.dh == u16::MAX { k.dh = 3; }
    match lay {
        "grid" => { if r.chance(2, 3) { k.w = crate::layout::NONE; k.h = crate::layout::NONE; } if r.chance(1, 2) { k.m = [0; 4]; } }
        "vertical" => { if r.chance(2, 3) { k.h = if r.chance(1, 2) { Len("fr", r.range(1, 4)) } else { Len("c", r.range(1, 5)) }; } }
        _ => { if r.chance(2, 3) { k.w = if r.chance(1, 2) { Len("fr", r.range(1, 4)) } else { Len("c", r.range(1, 9)) }; } }
    }
    k
}

fn style(p: &Par, line: usize, pad: i64) -> ComputedStyle {
    let mut s = p.style();
    s.keyline = Keyline::new(STYLES[line], RgbaColor::rgb(LINE.0, LINE.1, LINE.2));
    s.overflow_x = Overflow::Hidden;
    s.overflow_y = Overflow::Hidden;
    s.padding.top = cells(pad as i32); s.padding.right = cells(pad as i32);
    s.padding.bottom = cells(pad as i32); s.padding.left = cells(pad as i32);
    s
}

fn history(r: &mut Rng, lay: &'static str) -> Value {
    let mut p = par(r, lay);
    p.autow = false;
    p.autoh = false;
    if lay == "grid" { p.guth = p.guth.min(2); p.gutv = p.gutv.min(1); }
    if lay == "grid" && r.chance(2, 3) { p.cols = r.range(1, 4) as u16; p.colspecs.clear(); p.rowspecs.clear(); }
    let log = Log::default();
    let n = r.range(0, if lay == "grid" { 8 } else { 4 }) as usize;
    let mut kids: Vec<Kid> = (0..n).map(|_| child(r, lay)).collect();
    let mut shown = vec![true; n];
    let mut ctls = vec![];
    let ws: Vec<Box<dyn Widget<u32>>> = (0..n).map(|i| {
        let (pr, c) = Probe::new(i as u8 + 1, 1, 1, &log);
        ctls.push(c);
        Box::new(pr) as Box<dyn Widget<u32>>
    }).collect();
    let mut w: Box<dyn Widget<u32>> = if lay == "grid" { Box::new(Grid::new(ws)) } else { Box::new(Container::new(ws)) };
    let (mut line, mut pad) = (r.range(1, 3) as usize, r.range(0, 2));
    let small = if lay == "grid" && r.chance(5, 6) { (14, 8) } else { (2, 2) };
    let (mut width, mut height) = (r.range(small.0, 44), r.range(small.1, 18));
    let mut steps = vec![];
    for _ in 0..5 {
        for i in 0..n {
            let mut c = ctls[i].borrow_mut();
            c.style = kids[i].style();
            c.size = Some((kids[i].dw, kids[i].dh, kids[i].ih, kids[i].area));
            c.visible = shown[i];
        }
        w.set_style(style(&p, line, pad));
        let (ax, ay) = (r.range(0, 2) + pad, r.range(0, 2) + pad);
        let (cw, ch) = (ax + width + pad + r.range(0, 2), ay + height + pad + r.range(0, 1));
        let out = guard(|| {
            let mut c = Canvas::new(cw as u16, ch as u16);
            w.render(&mut c, Region { x: (ax - pad) as i32, y: (ay - pad) as i32, width: (width + 2 * pad) as i32, height: (height + 2 * pad) as i32 });
            read(&c)
        });
        let js: Vec<Value> = (0..n).filter(|&i| shown[i]).map(|i| kids[i].j(i + 1)).collect();
        steps.push(json!({"op": "draw", "panic": out.is_none() as u8, "lay": lay, "par": p.j(), "kids": js, "line": line, "w": width, "h": height,
            "vp": {"w": cw, "h": ch}, "ax": ax, "ay": ay, "out": out.unwrap_or_default()}));
        match r.below(7) {
            0 => { width = r.range(small.0, 44); height = r.range(small.1, 18); }
            1 => line = r.below(4),
            2 => pad = r.range(0, 2),
            3 => { p.guth = r.range(0, 2); p.gutv = r.range(0, 1); if lay == "grid" { p.cols = r.range(1, 4) as u16; } }
            4 if n > 0 => { let i = r.below(n); kids[i] = child(r, lay); }
            _ if n > 0 => { let i = r.below(n); shown[i] = !shown[i]; }
            _ => {}
        }
    }
    json!({"steps": steps})
}

fn boxes(r: &mut Rng) -> Value {
    let (w, h) = (r.range(2, 20), r.range(2, 10));
    let line = r.range(1, 3);
    let mut list = vec![];
    let mut steps = vec![];
    let mut k = KeylineCanvas::new(w as usize, h as usize, line as u8, RgbaColor::rgb(LINE.0, LINE.1, LINE.2));
    for _ in 0..4 {
        // rectangles of at least two cells each way, possibly leaving the canvas
        let (x, y) = (r.range(0, w - 1), r.range(0, h - 1));
        let (bw, bh) = (r.range(2, 9), r.range(2, 6));
        list.push(json!({"x": x, "y": y, "w": bw, "h": bh}));
        let (ax, ay) = (r.range(0, 2), r.range(0, 2));
        let out = guard(|| {
            k.add_widget_box(x as usize, y as usize, bw as usize, bh as usize);
            let mut c = Canvas::new((w + ax + 1) as u16, (h + ay + 1) as u16);
            k.render(&mut c, Region { x: ax as i32, y: ay as i32, width: w as i32, height: h as i32 });
            read(&c)
        });
        steps.push(json!({"op": "boxes", "panic": out.is_none() as u8, "boxes": list, "line": line, "w": w, "h": h, "ax": ax, "ay": ay, "out": out.unwrap_or_default()}));
    }
    json!({"steps": steps})
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x6b);
    let all: Vec<[i64; 5]> = (0..256usize).map(|i| {
        let q = [(i >> 6 & 3) as u8, (i >> 4 & 3) as u8, (i >> 2 & 3) as u8, (i & 3) as u8];
        [q[0] as i64, q[1] as i64, q[2] as i64, q[3] as i64, get_box_char((q[0], q[1], q[2], q[3])).map_or(0, |c| c as i64)]
    }).collect();
    out.line(&json!({"steps": [{"op": "glyphs", "panic": 0, "out": all}]}));
    let n = if a.thorough { 6000 } else { 1200 };
    for i in 0..n {
        if i % 5 == 4 { out.line(&boxes(&mut r)); continue; }
        let lay = ["grid", "grid", "vertical", "horizontal"][i % 5];
        out.line(&history(&mut r, lay));
    }
}
