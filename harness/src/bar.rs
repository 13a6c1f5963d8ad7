//! Scroll bars: how they are drawn, in eighths of a cell, and the ScrollBar widget's answers to the pointer.
use crate::common::*;
use crossterm::event::{KeyModifiers, MouseButton, MouseEventKind};
use crossterm::style::Color;
use serde_json::{json, Value};
use tcss::types::scrollbar::ScrollbarStyle;
use tcss::types::RgbaColor;
use tcss::{ComputedStyle, WidgetStates};
use textual::canvas::{Canvas, Region};
use textual::scroll::ScrollMessage;
use textual::widget::scrollbar::ScrollBar;
use textual::{MouseEvent, Widget};

/// thumb colours are rgb(200, 1, k), track colours rgb(201, 2, k): k = 1 plain, 2 hovered, 3 grabbed
pub fn colours(s: &mut ScrollbarStyle, tc: [bool; 3], bc: [bool; 3]) {
    let th = |k: u8| tc[k as usize - 1].then(|| RgbaColor::rgb(200, 1, k));
    let tr = |k: u8| bc[k as usize - 1].then(|| RgbaColor::rgb(201, 2, k));
    s.color = th(1); s.color_hover = th(2); s.color_active = th(3);
    s.background = tr(1); s.background_hover = tr(2); s.background_active = tr(3);
}
#[derive(Clone, Copy, PartialEq)]
enum Part { Thumb(i64), Track(i64), Other }
fn part(c: Option<Color>, fall: &(RgbaColor, RgbaColor)) -> Part {
    let same = |f: &RgbaColor, r: u8, g: u8, b: u8| (f.r, f.g, f.b) == (r, g, b);
    match c {
        Some(Color::Rgb { r: 200, g: 1, b }) => Part::Thumb(b as i64),
        Some(Color::Rgb { r: 201, g: 2, b }) => Part::Track(b as i64),
        Some(Color::Rgb { r, g, b }) if same(&fall.0, r, g, b) => Part::Thumb(0),
        Some(Color::Rgb { r, g, b }) if same(&fall.1, r, g, b) => Part::Track(0),
        _ => Part::Other,
    }
}
/// {"look": [first, past last] eighths or [], "tc", "bc": colour of thumb and track (-1: none to be seen), "bad"}
pub fn decode(c: &Canvas, r: Region, vert: bool) -> Value {
    let d = ScrollbarStyle::default();
    let fall = (d.effective_color(), d.effective_background());
    let (w, h) = c.size();
    let n = if vert { r.height } else { r.width };
    let thick = if vert { r.width } else { r.height };
    let mut bad = 0;
    let (mut tc, mut bc) = (-1i64, -1i64);
    let mut runs: Vec<(i64, i64)> = vec![];
    for i in 0..n {
        let mut first = None;
        for j in 0..thick {
            let (x, y) = if vert { (r.x + j, r.y + i) } else { (r.x + i, r.y + j) };
            if x < 0 || y < 0 || x >= w as i32 || y >= h as i32 { bad = 1; continue; }
            let cell = c.cell_at(y as usize * w as usize + x as usize);
            let (fg, bg) = (part(cell.fg, &fall), part(cell.bg, &fall));
            let ch = cell.symbol.as_str().chars().next().unwrap_or(' ');
            let glyphs: Vec<char> = if vert { "▁▂▃▄▅▆▇".chars().collect() } else { "▉▊▋▌▍▎▏".chars().collect() };
            // the part of the cell, in eighths from its start, that the thumb takes
            let k = glyphs.iter().position(|g| *g == ch).map(|k| k as i64);
            let got = match (k, fg, bg) {
                (None, _, Part::Thumb(_)) if ch == ' ' => (0, 8),
                (None, _, Part::Track(_)) if ch == ' ' => (0, 0),
                (Some(k), Part::Thumb(_), Part::Track(_)) => if vert { (7 - k, 8) } else { (0, 7 - k) },
                (Some(k), Part::Track(_), Part::Thumb(_)) => if vert { (0, 7 - k) } else { (7 - k, 8) },
                _ => { bad = 1; (0, 0) }
            };
            for p in if k.is_some() { vec![fg, bg] } else { vec![bg] } {
                match p {
                    Part::Thumb(v) => { if tc != -1 && tc != v { bad = 2 } tc = v }
                    Part::Track(v) => { if bc != -1 && bc != v { bad = 3 } bc = v }
                    Part::Other => bad = 4,
                }
            }
            if first.is_none() { first = Some(got) } else if first != Some(got) { bad = 5 }
        }
        if let Some((a, b)) = first { if a < b { runs.push((i as i64 * 8 + a, i as i64 * 8 + b)) } }
    }
    for p in runs.windows(2) { if p[0].1 != p[1].0 { bad = 6 } }
    let look = match (runs.first(), runs.last()) { (Some(a), Some(b)) => json!([a.0, b.1]), _ => json!([]) };
    json!({"look": look, "tc": tc, "bc": bc, "bad": bad})
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xBA5);
    for _ in 0..(if a.thorough { 20000 } else { 2500 }) {
        let vert = r.chance(1, 2);
        let dims = |r: &mut Rng| {
            let big = if r.chance(1, 5) { 400 } else { 60 };
            let virt = r.range(0, big); let win = if r.chance(1, 8) { r.range(0, 60) } else { r.range(0, virt.max(1)) };
            let room = (virt - win).max(0);
            let pos = match r.below(4) { 0 => 0, 1 => room, _ => r.range(0, room) };
            (virt, win, pos)
        };
        let mut n = r.range(1, 24) as i32;
        let thick = r.range(1, 3) as i32;
        let (virt, win, pos) = dims(&mut r);
        let tcols = [r.chance(4, 5), r.chance(3, 4), r.chance(3, 4)];
        let bcols = [r.chance(4, 5), r.chance(3, 4), r.chance(3, 4)];
        let ghost = r.chance(1, 12);
        let mut bar = ScrollBar::new(vert, |m: ScrollMessage| m).with_thickness(thick as u16);
        let mut style = ComputedStyle::default();
        colours(&mut style.scrollbar, tcols, bcols);
        if ghost { for c in [&mut style.scrollbar.color, &mut style.scrollbar.color_hover, &mut style.scrollbar.color_active] { let mut k = RgbaColor::rgb(9, 9, 9); k.a = 0.0; *c = Some(k); } }
        let w: &mut dyn Widget<ScrollMessage> = &mut bar;
        w.set_style(style);
        bar.update(virt as f32, win as f32, pos as f32);
        let j = |b: [bool; 3]| json!(b.map(|x| x as u8));
        let cfg = json!({"vert": vert as u8, "n": n, "virt": virt, "win": win, "pos": pos, "ghost": ghost as u8, "tcols": j(tcols), "bcols": j(bcols)});
        let (ox, oy) = (r.range(0, 3) as i32, r.range(0, 3) as i32);
        let mut steps = vec![];
        for i in 0..r.range(4, 14) {
            let region = if vert { Region::new(ox, oy, thick, n) } else { Region::new(ox, oy, n, thick) };
            let mut e;
            let mut msg = None;
            let ok = match if i == 0 { 99 } else { r.below(12) } {
                99 => { e = json!({"op":"show"}); Some(()) }
                0 | 1 => { let (v, w, p) = dims(&mut r); e = json!({"op":"update","virt":v,"win":w,"pos":p}); guard(|| bar.update(v as f32, w as f32, p as f32)) }
                2 => { n = r.range(1, 24) as i32; e = json!({"op":"resize","n":n}); Some(()) }
                3 => { let on = r.chance(1, 2); e = json!({"op":"hover","on":on as u8}); guard(|| if on { Widget::set_hover(&mut bar, true); } else if r.chance(1, 2) { Widget::set_hover(&mut bar, false); } else { Widget::clear_hover(&mut bar) }) }
                4 if r.chance(1, 2) => { e = json!({"op":"drop"}); guard(|| { Widget::set_active(&mut bar, false); }) }
                _ => {
                    let (k, kind) = *r.pick(&[("move", MouseEventKind::Moved), ("down", MouseEventKind::Down(MouseButton::Left)), ("down", MouseEventKind::Down(MouseButton::Left)), ("drag", MouseEventKind::Drag(MouseButton::Left)), ("drag", MouseEventKind::Drag(MouseButton::Left)), ("up", MouseEventKind::Up(MouseButton::Left)),
                        ("wheeldown", MouseEventKind::ScrollDown), ("wheelup", MouseEventKind::ScrollUp), ("other", MouseEventKind::ScrollLeft)]);
                    let out = r.chance(1, 8);
                    let p = r.range(0, n as i64 - 1) as i32;
                    let q = r.range(0, thick as i64 - 1) as i32;
                    let (x, y) = if out { if r.chance(1, 2) { (ox + region.width, oy) } else { (ox, oy + region.height) } } else if vert { (ox + q, oy + p) } else { (ox + p, oy + q) };
                    e = json!({"op":"mouse","k":k,"p": if out { -1 } else { p }});
                    guard(|| msg = bar.on_mouse(MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::empty() }, region))
                }
            };
            let region = if vert { Region::new(ox, oy, thick, n) } else { Region::new(ox, oy, n, thick) };
            let mut v = 0i64;
            let m = match msg {
                None => "", Some(ScrollMessage::ScrollUp) => "up", Some(ScrollMessage::ScrollDown) => "down", Some(ScrollMessage::ScrollLeft) => "left", Some(ScrollMessage::ScrollRight) => "right",
                Some(ScrollMessage::ScrollTo { x, y, .. }) => match (vert, x, y) { (true, None, Some(p)) | (false, Some(p), None) => { v = (p as f64 * 1000.0).round() as i64; "to" } _ => "askew" },
                #[allow(unreachable_patterns)]
                _ => "?",
            };
            e["msg"] = json!(m);
            e["v"] = json!(v);
            let look = ok.and_then(|_| guard(|| { let mut c = Canvas::new(34, 34); Widget::render(&bar, &mut c, region); decode(&c, region, vert) }));
            e["panic"] = json!(look.is_none() as u8);
            if let Some(l) = look { for k in ["look", "tc", "bc", "bad"] { e[k] = l[k].clone(); } }
            let st = Widget::get_state(&bar);
            e["st"] = json!(if st.contains(WidgetStates::ACTIVE) { "grab" } else if st.contains(WidgetStates::HOVER) { "hover" } else { "normal" });
            e["can"] = json!(bar.can_scroll() as u8);
            let stop = e["panic"] == 1;
            steps.push(e);
            if stop { break; }
        }
        out.line(&json!({"cfg": cfg, "steps": steps}));
    }
}
