use crate::common::*;
use crate::probe::*;
use crossterm::event::{KeyModifiers, MouseButton, MouseEventKind};
use serde_json::{json, Value};
use tcss::types::border::{BorderEdge, BorderKind};
use tcss::types::scrollbar::{ScrollbarGutter, ScrollbarSize, ScrollbarVisibility};
use tcss::types::{Overflow, RgbaColor};
use tcss::ComputedStyle;
use textual::canvas::{Canvas, Region};
use textual::containers::container::Container;
use textual::containers::scrollable::ScrollableContainer;
use textual::widget::screen::Screen;
use textual::scroll::ScrollState;
use textual::{KeyCode, MouseEvent, Widget};

pub fn run_state(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x5C);
    let ax = |o: i32, v: i32, w: i32| json!({"off":o,"virt":v,"view":w});
    for _ in 0..(if a.thorough { 20000 } else { 2500 }) {
        let d = |r: &mut Rng| if r.chance(1, 8) { 0 } else { r.range(1, 40) as i32 };
        let (vw, vh, pw, ph) = (d(&mut r), d(&mut r), d(&mut r), d(&mut r));
        let mut s = ScrollState::new(vw, vh, pw, ph);
        let init = (ax(0, vw, pw), ax(0, vh, ph));
        let mut steps = vec![];
        for _ in 0..r.range(4, 14) {
            let lim = if r.chance(1, 4) { 60 } else { 8 };
            let n = r.range(0, lim) as i32;
            let mut e;
            let res = match r.below(8) {
                0 => { e = json!({"op":"up","a":n}); guard(|| s.scroll_up(n)) }
                1 | 2 => { e = json!({"op":"down","a":n}); guard(|| s.scroll_down(n)) }
                3 => { e = json!({"op":"left","a":n}); guard(|| s.scroll_left(n)) }
                4 => { e = json!({"op":"right","a":n}); guard(|| s.scroll_right(n)) }
                5 => {
                    let (x, y) = (r.range(-20, 170) as i32, r.range(-20, 170) as i32);
                    let (hx, hy) = (r.chance(2, 3), r.chance(2, 3));
                    e = json!({"op":"to","a":x,"b":y,"hx":hx as u8,"hy":hy as u8});
                    guard(|| s.scroll_to(hx.then_some(x as f32 / 4.0), hy.then_some(y as f32 / 4.0)))
                }
                6 => { let (x, y) = (d(&mut r), d(&mut r)); e = json!({"op":"viewport","a":x,"b":y}); guard(|| s.set_viewport(x, y)) }
                _ => { let (x, y) = (d(&mut r), d(&mut r)); e = json!({"op":"virtual","a":x,"b":y}); guard(|| s.set_virtual_size(x, y)) }
            };
            e["panic"] = json!(res.is_none() as u8);
            e["x"] = ax(s.offset_x, s.virtual_width, s.viewport_width);
            e["y"] = ax(s.offset_y, s.virtual_height, s.viewport_height);
            e["mx"] = json!(s.max_scroll_x());
            e["my"] = json!(s.max_scroll_y());
            e["canx"] = json!(s.can_scroll_x() as u8);
            e["cany"] = json!(s.can_scroll_y() as u8);
            e["px"] = json!((s.scroll_percent_x() as f64 * 1000.0).floor() as i64);
            e["py"] = json!((s.scroll_percent_y() as f64 * 1000.0).floor() as i64);
            steps.push(e);
            if res.is_none() { break; }
        }
        out.line(&json!({"x": init.0, "y": init.1, "steps": steps}));
    }
}

#[derive(Clone)]
struct Cfg { w: i32, h: i32, cw: i32, ch: i32, ovx: usize, ovy: usize, sbv: i32, sbh: i32, vis: bool, pad: [i32; 4], border: bool, kind: usize, gut: bool }
const KIND: [&str; 3] = ["pane", "screen", "container"];
const OV: [(&str, Overflow); 3] = [("auto", Overflow::Auto), ("scroll", Overflow::Scroll), ("hidden", Overflow::Hidden)];

fn rcfg(r: &mut Rng) -> Cfg {
    let ov = |r: &mut Rng| match r.below(8) { 0 | 1 => 1, 2 => 2, _ => 0 };
    let (lw, lh) = (if r.chance(1, 4) { 90 } else { 20 }, if r.chance(1, 4) { 120 } else { 24 });
    let kind = match r.below(10) { 0..=4 => 0, 5..=7 => 1, _ => 2 };
    // a container offers no way to scroll sideways
    let ovx = if kind == 2 { 2 } else { ov(r) };
    Cfg {
        kind, gut: kind < 2 && r.chance(1, 5),
        w: r.range(4, 14) as i32, h: r.range(4, 12) as i32,
        cw: r.range(1, lw) as i32, ch: r.range(1, lh) as i32,
        ovx, ovy: ov(r), sbv: r.range(0, 2) as i32, sbh: r.range(0, 2) as i32, vis: !r.chance(1, 10),
        pad: if r.chance(1, 2) { [0; 4] } else { [r.below(3) as i32, r.below(3) as i32, r.below(3) as i32, r.below(3) as i32] },
        border: r.chance(1, 3),
    }
}
fn rcfg_of(r: &mut Rng, kind: usize) -> Cfg { loop { let c = rcfg(r); if c.kind == kind { return c; } } }
fn jcfg(c: &Cfg) -> Value {
    json!({"W":c.w,"H":c.h,"cw":c.cw,"ch":c.ch,"ovx":OV[c.ovx].0,"ovy":OV[c.ovy].0,"sbv":c.sbv,"sbh":c.sbh,"vis":c.vis as u8,"gut":c.gut as u8,"kind":KIND[c.kind]})
}
fn style_of(c: &Cfg) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.overflow_x = OV[c.ovx].1;
    s.overflow_y = OV[c.ovy].1;
    s.scrollbar.size = ScrollbarSize { horizontal: c.sbh as u16, vertical: c.sbv as u16 };
    s.scrollbar.visibility = if c.vis { ScrollbarVisibility::Visible } else { ScrollbarVisibility::Hidden };
    if c.gut { s.scrollbar.gutter = ScrollbarGutter::Stable; }
    crate::bar::colours(&mut s.scrollbar, [true; 3], [true; 3]);
    s.scrollbar.corner_color = Some(RgbaColor::rgb(202, 3, 3));
    s.padding.top.value = c.pad[0] as f64;
    s.padding.right.value = c.pad[1] as f64;
    s.padding.bottom.value = c.pad[2] as f64;
    s.padding.left.value = c.pad[3] as f64;
    if c.border {
        let e = BorderEdge { kind: BorderKind::Solid, color: None };
        s.border.top = e.clone(); s.border.bottom = e.clone(); s.border.left = e.clone(); s.border.right = e;
    }
    s
}

pub fn bar_cell(c: &Canvas, x: i32, y: i32) -> bool {
    let (w, h) = c.size();
    if x < 0 || y < 0 || x >= w as i32 || y >= h as i32 { return false; }
    let cell = c.cell_at(y as usize * w as usize + x as usize);
    matches!(cell.bg, Some(crossterm::style::Color::Rgb { r: 200 | 201, g: _, b: _ }))
}

pub fn run_pane(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x9A);
    let n = if a.thorough { 12000 } else { 1500 };
    for _ in 0..n {
        let mut cfg = rcfg(&mut r);
        let log: Log = Default::default();
        let (p, ctl) = Probe::new(1, cfg.cw, cfg.ch, &log);
        let mut pane: Box<dyn Widget<u32>> = match cfg.kind {
            0 => Box::new(ScrollableContainer::from_child(Box::new(p))),
            1 => Box::new(Screen::new(vec![Box::new(p)])),
            _ => Box::new(Container::new(vec![Box::new(p)])),
        };
        pane.set_style(style_of(&cfg));
        let (ox, oy) = (r.range(0, 5) as i32, r.range(0, 4) as i32);
        let first = cfg.clone();
        let mut steps = vec![];
        let nsteps = r.range(5, 18);
        for i in 0..=nsteps {
            let b = cfg.border as i32;
            let mut inner = (ox + b + cfg.pad[3], oy + b + cfg.pad[0]);
            let mut region = Region::new(ox, oy, cfg.w + 2 * b + cfg.pad[1] + cfg.pad[3], cfg.h + 2 * b + cfg.pad[0] + cfg.pad[2]);
            let mouse = |pane: &mut Box<dyn Widget<u32>>, kind, mx: i32, my: i32, m: KeyModifiers, sender: bool| {
                let e = MouseEvent { kind, column: (inner.0 + mx) as u16, row: (inner.1 + my) as u16, modifiers: m };
                if sender { let _ = pane.on_mouse_with_sender(e, region); } else { let _ = pane.on_mouse(e, region); }
            };
            let sender = r.chance(1, 2);
            let mut e;
            // aim at a bar most of the time
            let (mx, my) = match r.below(4) {
                0 => (cfg.w - 1, r.range(0, cfg.h as i64 - 1) as i32),
                1 => (r.range(0, cfg.w as i64 - 1) as i32, cfg.h - 1),
                _ => (r.range(0, cfg.w as i64 - 1) as i32, r.range(0, cfg.h as i64 - 1) as i32),
            };
            let none = KeyModifiers::empty();
            let ok = if i == 0 {
                e = json!({"op":"show"});
                Some(())
            } else {
                match r.below(23) {
                    0..=8 => {
                        let (k, code) = *r.pick(&[("up", KeyCode::Up), ("down", KeyCode::Down), ("left", KeyCode::Left), ("right", KeyCode::Right),
                            ("pageup", KeyCode::PageUp), ("pagedown", KeyCode::PageDown), ("home", KeyCode::Home), ("end", KeyCode::End), ("down", KeyCode::Down), ("right", KeyCode::Right), ("other", KeyCode::Tab)]);
                        e = json!({"op":"key","k":k});
                        guard(|| { pane.on_event(code); })
                    }
                    9..=12 => {
                        let (k, kind) = *r.pick(&[("wheeldown", MouseEventKind::ScrollDown), ("wheelup", MouseEventKind::ScrollUp), ("wheelleft", MouseEventKind::ScrollLeft), ("wheelright", MouseEventKind::ScrollRight), ("wheeldown", MouseEventKind::ScrollDown)]);
                        let m = r.below(4);
                        e = json!({"op":"wheel","k":k,"mod":(m < 2) as u8});
                        let md = match m { 0 => KeyModifiers::SHIFT, 1 => KeyModifiers::CONTROL, _ => none };
                        guard(|| mouse(&mut pane, kind, mx, my, md, sender))
                    }
                    13..=15 => { e = json!({"op":"down","mx":mx,"my":my}); guard(|| mouse(&mut pane, MouseEventKind::Down(MouseButton::Left), mx, my, none, sender)) }
                    16 | 17 => { e = json!({"op":"drag","mx":mx,"my":my}); guard(|| mouse(&mut pane, MouseEventKind::Drag(MouseButton::Left), mx, my, none, sender)) }
                    18 => { e = json!({"op":"move","mx":mx,"my":my}); guard(|| mouse(&mut pane, MouseEventKind::Moved, mx, my, none, sender)) }
                    22 => { e = json!({"op":"leave"}); guard(|| pane.clear_hover()) }
                    19 => { e = json!({"op":"up"}); guard(|| mouse(&mut pane, MouseEventKind::Up(MouseButton::Left), mx, my, none, sender)) }
                    _ => {
                        let keep = cfg.clone();
                        match r.below(3) {
                            0 => { let n = rcfg_of(&mut r, cfg.kind); cfg.w = n.w; cfg.h = n.h; }
                            1 => { let n = rcfg_of(&mut r, cfg.kind); cfg.cw = n.cw; cfg.ch = n.ch; }
                            _ => { cfg = rcfg_of(&mut r, keep.kind); cfg.pad = keep.pad; cfg.border = keep.border; }
                        }
                        e = json!({"op":"config","cfg":jcfg(&cfg)});
                        inner = (ox + b + cfg.pad[3], oy + b + cfg.pad[0]);
                        region = Region::new(ox, oy, cfg.w + 2 * b + cfg.pad[1] + cfg.pad[3], cfg.h + 2 * b + cfg.pad[0] + cfg.pad[2]);
                        ctl.borrow_mut().style.width = Some(cells(cfg.cw));
                        ctl.borrow_mut().style.height = Some(cells(cfg.ch));
                        pane.set_style(style_of(&cfg));
                        Some(())
                    }
                }
            };
            let seen = ok.and_then(|_| guard(|| {
                let mut c = Canvas::new(40, 30);
                pane.render(&mut c, Region::new(region.x, region.y, region.width, region.height));
                // bounding box of the cells showing content, and whether they all agree
                let mut bx: Option<(i32, i32, i32, i32)> = None;
                for y in 0..30 { for x in 0..40 {
                    if who(&c, x, y).is_some() {
                        bx = Some(match bx { None => (x, y, x, y), Some(b) => (b.0.min(x), b.1.min(y), b.2.max(x), b.3.max(y)) });
                    }
                } }
                let seen = match bx {
                    None => json!([]),
                    Some((x0, y0, x1, y1)) => {
                        let (_, lx, ly) = who(&c, x0, y0).unwrap_or((0, -99, -99));
                        let mut good = true;
                        for y in y0..=y1 { for x in x0..=x1 { good &= who(&c, x, y) == Some((1, lx + x - x0, ly + y - y0)); } }
                        if good { json!([x0 - inner.0, y0 - inner.1, x1 - x0 + 1, y1 - y0 + 1, lx, ly]) } else { json!([-1, -1, -1, -1, -1, -1]) }
                    }
                };
                let v = bar_cell(&c, inner.0 + cfg.w - 1, inner.1);
                let h = bar_cell(&c, inner.0, inner.1 + cfg.h - 1);
                // where the bars are by the geometry of the configuration
                let nh = if h { cfg.sbh } else { 0 };
                let nv = if v { cfg.sbv } else { 0 };
                let bv = crate::bar::decode(&c, Region::new(inner.0 + cfg.w - cfg.sbv, inner.1, cfg.sbv, (cfg.h - nh).max(0)), true);
                let bh = crate::bar::decode(&c, Region::new(inner.0, inner.1 + cfg.h - cfg.sbh, (cfg.w - nv).max(0), cfg.sbh), false);
                let corner = (0..cfg.sbh).all(|j| (0..cfg.sbv).all(|i| matches!(c.cell_at((inner.1 + cfg.h - 1 - j) as usize * 40 + (inner.0 + cfg.w - 1 - i) as usize).bg, Some(crossterm::style::Color::Rgb { r: 202, .. }))));
                (seen, v, h, bv, bh, corner)
            }));
            match seen {
                None => { e["panic"] = json!(1); steps.push(e); break; }
                Some((s, v, h, bv, bh, corner)) => {
                    e["panic"] = json!(0);
                    e["seen"] = s;
                    e["v"] = bv; e["h"] = bh; e["corner"] = json!(corner as u8);
                    e["vbar"] = json!(v as u8);
                    e["hbar"] = json!(h as u8);
                    steps.push(e);
                }
            }
        }
        out.line(&json!({"cfg": jcfg(&first), "steps": steps}));
    }
}
