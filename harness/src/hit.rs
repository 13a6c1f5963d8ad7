//! Trees of real containers with probe leaves: what is drawn where, and who gets a mouse event there.
use crate::common::*;
use crate::layout::{kid, len, par, Kid, Len, Par};
use crate::probe::*;
use crate::scroll::bar_cell;
use crossterm::event::{KeyModifiers, MouseButton, MouseEventKind};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::border::BorderKind;
use tcss::types::scrollbar::ScrollbarSize;
use tcss::types::{Overflow, RgbaColor, Scalar, Unit};
use tcss::ComputedStyle;
use textual::canvas::{Canvas, Region};
use textual::containers::container::Container;
use textual::containers::grid::Grid;
use textual::containers::item_grid::ItemGrid;
use textual::containers::scrollable::ScrollableContainer;
use textual::containers::{horizontal::Horizontal, vertical::Vertical, Center, Middle};
use textual::{MouseEvent, Screen, Widget};

type W = Box<dyn Widget<u32>>;

/// A container: description, children, and how to reach its widget's visibility.
struct Desc {
    id: usize,
    kind: &'static str,
    par: Par,
    border: bool,
    pad: [i64; 4],
    ovx: usize,
    ovy: usize,
    sbv: u16,
    sbh: u16,
    mincol: u16,
    kids: Vec<Child>,
}
struct Child {
    kid: Kid,
    visible: bool,
    body: Body,
}
enum Body {
    Leaf(u8, Rc<RefCell<Ctl>>),
    Node(Desc),
}
const OV: [(&str, Overflow); 3] = [("auto", Overflow::Auto), ("scroll", Overflow::Scroll), ("hidden", Overflow::Hidden)];

fn style_of(d: &Desc, base: ComputedStyle) -> ComputedStyle {
    let mut s = base;
    let p = d.par.style();
    s.layout = p.layout;
    s.align_horizontal = p.align_horizontal;
    s.align_vertical = p.align_vertical;
    s.grid = p.grid;
    s.layers = p.layers;
    if d.par.autow { s.width = Some(Scalar { value: 0.0, unit: Unit::Auto }); }
    if d.par.autoh { s.height = Some(Scalar { value: 0.0, unit: Unit::Auto }); }
    s.padding.top = cells(d.pad[0] as i32); s.padding.right = cells(d.pad[1] as i32);
    s.padding.bottom = cells(d.pad[2] as i32); s.padding.left = cells(d.pad[3] as i32);
    if d.border {
        for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] { e.kind = BorderKind::Solid; }
    }
    s.overflow_x = OV[d.ovx].1;
    s.overflow_y = OV[d.ovy].1;
    s.scrollbar.size = ScrollbarSize { horizontal: d.sbh, vertical: d.sbv };
    let (thumb, track) = (RgbaColor::rgb(200, 1, 1), RgbaColor::rgb(201, 2, 2));
    s.scrollbar.color = Some(thumb.clone()); s.scrollbar.color_hover = Some(thumb.clone()); s.scrollbar.color_active = Some(thumb);
    s.scrollbar.background = Some(track.clone()); s.scrollbar.background_hover = Some(track.clone()); s.scrollbar.background_active = Some(track);
    s
}

fn put(ctl: &Rc<RefCell<Ctl>>, k: &Kid) {
    let mut c = ctl.borrow_mut();
    c.style = k.style();
    c.size = Some((k.dw, k.dh, k.ih, k.area));
}

fn leaf_kid(r: &mut Rng, d: &Par, kind: &str) -> Kid {
    let gridlike = d.layout == "grid" || kind == "grid" || kind == "itemgrid";
    let mut k = { let plain = r.chance(1, 2); kid(r, if gridlike { "grid" } else { d.layout }, plain) };
    k.cb = false;
    k.border = false;
    k.pad = [0; 4];
    if k.dw == u16::MAX { k.dw = 5; }
    if k.dh == u16::MAX { k.dh = 3; }
    if r.chance(1, 2) { k.w = Len("c", r.range(1, 9)); }
    if r.chance(1, 2) { k.h = Len("c", r.range(1, 4)); }
    if !matches!(kind, "grid" | "itemgrid") {
        match r.below(9) {
            0 => { k.dock = *r.pick(&["top", "bottom", "left", "right"]); k.dw = r.range(1, 6) as u16; k.dh = r.range(1, 3) as u16; }
            1 => { k.abs = true; k.w = len(r, false); k.h = len(r, false); }
            _ => {}
        }
        if r.chance(1, 5) { k.layer = *r.pick(&["", "over", "base"]); }
        if r.chance(1, 4) { k.ox = Len("c", r.range(-4, 4)); k.oy = Len("c", r.range(-3, 3)); }
    }
    k
}

struct Build { next: u8, ids: usize, log: Log }

fn make(r: &mut Rng, b: &mut Build, kind: &'static str, depth: usize) -> (Desc, W) {
    let id = b.ids;
    b.ids += 1;
    let lay = match kind { "vertical" => "vertical", "horizontal" => "horizontal", "grid" | "itemgrid" => "grid", _ => *r.pick(&["vertical", "vertical", "horizontal", "grid"]) };
    let mut p = par(r, lay);
    if depth > 0 { p.autow = false; p.autoh = false; }
    if kind == "screen" || kind == "pane" { p.autow = false; p.autoh = false; }
    if r.chance(1, 3) { p.ha = *r.pick(&["left", "center", "right"]); p.va = *r.pick(&["top", "middle", "bottom"]); }
    if !matches!(kind, "grid" | "itemgrid") && r.chance(1, 4) { p.layers = vec!["base", "over"]; }
    let single = matches!(kind, "center" | "middle");
    // at most one axis scrolls: the other is hidden
    let ov = |r: &mut Rng| match r.below(4) { 0 => 1, 1 => 2, _ => 0 };
    let (ovx, ovy) = if r.chance(3, 4) { (2, ov(r)) } else { (ov(r), 2) };
    let mut d = Desc { id, kind: match kind { "vertical" | "horizontal" => "box", k => k }, par: p,
        border: !single && r.chance(1, 3), pad: if !single && r.chance(1, 3) { [r.range(0, 2), r.range(0, 2), r.range(0, 2), r.range(0, 2)] } else { [0; 4] },
        ovx, ovy, sbv: r.range(1, 2) as u16, sbh: 1, mincol: if kind == "itemgrid" && r.chance(2, 3) { r.range(2, 12) as u16 } else { 0 }, kids: vec![] };
    let mut ws: Vec<W> = vec![];
    let n = if single { 1 } else { r.range(0, if depth == 0 { 5 } else { 4 }) };
    for _ in 0..n {
        if depth < 2 && r.chance(if depth == 0 { 2 } else { 1 }, 5) {
            let k = *r.pick(&["box", "vertical", "horizontal", "grid", "itemgrid", "pane", "center", "middle"]);
            let (sub, mut w) = make(r, b, k, depth + 1);
            let mut kd = Kid::default();
            if !matches!(k, "center" | "middle") {
                let q = leaf_kid(r, &d.par, kind);
                let one = |r: &mut Rng, hi| match r.below(4) { 0 => Len("fr", 2 * r.range(1, 2)), 1 => Len("p", *r.pick(&[30, 50, 80, 100])), _ => Len("c", r.range(3, hi)) };
                kd.w = one(r, 16);
                kd.h = one(r, 8);
                kd.m = q.m; kd.cs = q.cs; kd.rs = q.rs; kd.ox = q.ox; kd.oy = q.oy; kd.layer = q.layer;
                if q.dock != "none" && k != "itemgrid" { kd.dock = q.dock; kd.w = Len("c", r.range(3, 8)); kd.h = Len("c", r.range(2, 5)); }
                w.set_style(style_of(&sub, kd.style()));
            }
            d.kids.push(Child { kid: kd, visible: true, body: Body::Node(sub) });
            ws.push(w);
        } else {
            let k = leaf_kid(r, &d.par, kind);
            let num = b.next;
            b.next += 1;
            let (pr, ctl) = Probe::new(num, 1, 1, &b.log);
            put(&ctl, &k);
            let vis = single || !r.chance(1, 8);
            ctl.borrow_mut().visible = vis;
            d.kids.push(Child { kid: k, visible: vis, body: Body::Leaf(num, ctl) });
            ws.push(Box::new(pr));
        }
    }
    let mut w: W = match kind {
        "screen" => Box::new(Screen::new(ws)),
        "box" => Box::new(Container::new(ws)),
        "vertical" => Box::new(Vertical::new(ws)),
        "horizontal" => Box::new(Horizontal::new(ws)),
        "grid" => Box::new(Grid::new(ws)),
        "itemgrid" => { let g = ItemGrid::new(ws); Box::new(if d.mincol > 0 { g.with_min_column_width(d.mincol) } else { g }) }
        "pane" => Box::new(ScrollableContainer::new(ws)),
        "center" => Box::new(Center::new(ws)),
        "middle" => Box::new(Middle::new(ws)),
        _ => unreachable!(),
    };
    if !single { w.set_style(style_of(&d, ComputedStyle::default())); }
    (d, w)
}

/// Sizes the children report (the code's own answer: desired sizes are not judged here).
fn measure(d: &mut Desc, w: &mut dyn Widget<u32>) {
    for (i, c) in d.kids.iter_mut().enumerate() {
        let Some(child) = w.get_child_mut(i) else { continue };
        if let Body::Node(sub) = &mut c.body {
            measure(sub, child);
            let s = child.desired_size();
            c.kid.dw = s.width;
            c.kid.dh = s.height;
            c.kid.ih = child.intrinsic_height_for_width(1);
        }
    }
}
fn jtree(d: &Desc) -> Value {
    let kids: Vec<Value> = d.kids.iter().enumerate().filter(|(_, c)| c.visible).map(|(i, c)| c.kid.j(i)).collect();
    let body: Vec<Value> = d.kids.iter().map(|c| match &c.body {
        Body::Leaf(n, _) => json!({"p": n}),
        Body::Node(s) => json!({"p": 0, "node": jtree(s)}),
    }).collect();
    json!({"id": d.id, "kind": d.kind, "par": d.par.j(), "bor": d.border as u8, "pt": d.pad[0], "pr": d.pad[1], "pb": d.pad[2], "pl": d.pad[3],
        "ovx": OV[d.ovx].0, "ovy": OV[d.ovy].0, "sbv": d.sbv, "sbh": d.sbh, "mincol": d.mincol, "kids": kids, "body": body})
}
fn leaves<'a>(d: &'a mut Desc, out: &mut Vec<(&'static str, String, &'a mut Child)>) {
    let (kind, lay) = (d.kind, d.par.layout);
    for c in &mut d.kids {
        if matches!(c.body, Body::Leaf(..)) { out.push((kind, lay.to_string(), c)); }
        else if let Body::Node(s) = &mut c.body { leaves(s, out); }
    }
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x417);
    let n = if a.thorough { 12000 } else { 2500 };
    for i in 0..n {
        let kind = ["screen", "box", "pane", "grid", "screen", "itemgrid", "box", "vertical", "screen", "horizontal"][i % 10];
        let mut b = Build { next: 1, ids: 0, log: Default::default() };
        let (mut d, mut w) = make(&mut r, &mut b, kind, 0);
        let (vw, vh) = (r.range(10, 34) as i32, r.range(6, 16) as i32);
        let mut reg = Region::new(0, 0, vw, vh);
        if kind != "screen" && r.chance(1, 2) { reg = Region::new(r.range(0, 4) as i32, r.range(0, 3) as i32, r.range(6, vw as i64 - 4) as i32, r.range(3, vh as i64 - 3) as i32); }
        let mut steps = vec![];
        let changes = r.range(0, 2);
        let wheels = r.range(0, 3);
        for s in 0..(1 + changes + wheels) {
            let mut e = json!({"op": "show"});
            let mut ok = Some(());
            if s == 0 {
            } else if s <= changes {
                match r.below(3) {
                    0 if kind != "screen" => {
                        e = json!({"op": "move"});
                        reg = Region::new(r.range(0, 4) as i32, r.range(0, 3) as i32, r.range(6, vw as i64 - 4) as i32, r.range(3, vh as i64 - 3) as i32);
                    }
                    k => {
                        let mut ls = vec![];
                        leaves(&mut d, &mut ls);
                        if !ls.is_empty() {
                            let at = r.below(ls.len());
                            let (pk, lay, c) = &mut ls[at];
                            let Body::Leaf(_, ctl) = &c.body else { unreachable!() };
                            if k == 1 && !matches!(*pk, "center" | "middle") {
                                e = json!({"op": "visible"});
                                c.visible = !c.visible;
                                ctl.borrow_mut().visible = c.visible;
                            } else {
                                e = json!({"op": "style"});
                                let p = Par::new(match lay.as_str() { "vertical" => "vertical", "horizontal" => "horizontal", _ => "grid" });
                                c.kid = leaf_kid(&mut r, &p, pk);
                                put(ctl, &c.kid);
                            }
                        }
                    }
                }
            } else {
                let (mx, my) = (r.range(reg.x as i64, (reg.x + reg.width) as i64 - 1), r.range(reg.y as i64, (reg.y + reg.height) as i64 - 1));
                let down = r.chance(2, 3);
                e = json!({"op": "wheel", "mx": mx, "my": my, "dir": if down { 1 } else { -1 }});
                let ev = MouseEvent { kind: if down { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, column: mx as u16, row: my as u16, modifiers: KeyModifiers::empty() };
                let send = r.chance(1, 2);
                ok = guard(|| { if send { w.on_mouse_with_sender(ev, reg); } else { w.on_mouse(ev, reg); } });
            }
            measure(&mut d, w.as_mut());
            e["tree"] = jtree(&d);
            e["reg"] = json!({"x": reg.x, "y": reg.y, "w": reg.width, "h": reg.height});
            e["vp"] = json!({"w": vw, "h": vh});
            let got = ok.and_then(|_| guard(|| {
                let mut c = Canvas::new(vw as u16, vh as u16);
                w.render(&mut c, reg);
                let code = |h: Option<(u8, i32, i32)>| h.map_or(0, |(n, x, y)| n as i64 * 1_000_000 + x as i64 * 1000 + y as i64);
                let (mut seen, mut hits, mut senders) = (vec![], vec![], true);
                for y in 0..vh { for x in 0..vw {
                    seen.push(code(who(&c, x, y)));
                    let kinds = [MouseEventKind::Moved, MouseEventKind::Up(MouseButton::Left), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::Down(MouseButton::Left), MouseEventKind::Down(MouseButton::Right)];
                    let kind = kinds[r.below(if bar_cell(&c, x, y) { 3 } else { 5 })];
                    let ev = MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::empty() };
                    b.log.borrow_mut().clear();
                    let got = if r.chance(1, 2) {
                        let m = w.on_mouse_with_sender(ev, reg);
                        if let Some((n, s)) = &m { senders &= s.id.as_deref() == Some(&format!("p{n}")[..]) && s.type_name == "Probe"; }
                        m.map(|m| m.0)
                    } else { w.on_mouse(ev, reg) };
                    let log = b.log.borrow();
                    hits.push(match &log[..] {
                        [] => if got.is_some() { -2 } else { 0 },
                        [h] => if got == Some(h.num as u32) { code(Some((h.num, h.lx, h.ly))) } else { -3 },
                        _ => -1,
                    });
                } }
                (seen, hits, senders)
            }));
            match got {
                None => { e["panic"] = json!(1); steps.push(e); break; }
                Some((seen, hits, senders)) => {
                    e["panic"] = json!(0);
                    e["seen"] = json!(seen);
                    e["hits"] = json!(hits);
                    e["senders"] = json!(senders as u8);
                    steps.push(e);
                }
            }
        }
        out.line(&json!({"nodes": b.ids, "steps": steps}));
    }
}
