//! Placeholders, rulers, loading indicators and headers.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::VecDeque;
use tcss::parser::parse_stylesheet;
use tcss::types::{RgbaColor, Scalar, Spacing, Theme, Unit};
use tcss::ComputedStyle;
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::style_resolver::resolve_styles;
use textual::*;

type M = u32;
const BEFORE: &str = "~";

fn rgb(c: crossterm::style::Color) -> Value {
    match c { crossterm::style::Color::Rgb { r, g, b } => json!([r, g, b]), _ => json!([-1, -1, -1]) }
}
fn sc(v: i64, unit: Unit) -> Scalar { Scalar { value: v as f64, unit } }
fn rc(c: [i64; 3]) -> RgbaColor { RgbaColor::rgb(c[0] as u8, c[1] as u8, c[2] as u8) }
fn hue(r: &mut Rng) -> [i64; 3] { [r.range(0, 255), r.range(0, 255), r.range(0, 255)] }
fn cps(s: &str) -> Vec<u32> { s.chars().map(|c| c as u32).collect() }

/// What drawing changed: code points, and which colours and attributes appear.
struct Seen { out: Vec<Vec<i64>>, inks: Vec<Value>, bgs: Vec<Value>, bold: u8, dim: Vec<Vec<u8>> }
fn look(cw: i64, ch: i64, f: impl FnOnce(&mut Canvas)) -> Option<Seen> {
    guard(|| {
        let mut c = Canvas::new(cw as u16, ch as u16);
        for y in 0..ch { c.put_str(0, y as i32, &BEFORE.repeat(cw as usize), None, None, TextAttributes::default()); }
        f(&mut c);
        let (mut inks, mut bgs, mut bold, mut dim) = (vec![], vec![], (0, 0), vec![]);
        let out = (0..ch).map(|y| { dim.push(vec![]); (0..cw).map(|x| {
            let k = c.cell_at((y * cw + x) as usize);
            dim[y as usize].push(k.attrs.dim as u8);
            if k.symbol == BEFORE && k.bg.is_none() && k.fg.is_none() { return 0; }
            if let Some(b) = k.bg { let b = rgb(b); if !bgs.contains(&b) { bgs.push(b); } }
            if k.continuation { return -1; }
            let mut it = k.symbol.chars();
            let cp = it.next().map_or(-3, |c| c as i64);
            if cp != 32 {
                if let Some(b) = k.fg { let b = rgb(b); if !inks.contains(&b) { inks.push(b); } }
                if k.attrs.bold { bold.0 += 1 } else { bold.1 += 1 }
            }
            if it.next().is_some() { -5 } else { cp }
        }).collect() }).collect();
        Seen { out, inks, bgs, bold: match bold { (0, 0) => 2, (_, 0) => 1, (0, _) => 0, _ => 3 }, dim }
    })
}

fn text(r: &mut Rng, ascii: bool) -> String {
    let mut s = String::new();
    for i in 0..r.range(1, 5) {
        if i > 0 { s.push_str(*r.pick(&[" ", " ", " ", if ascii { " " } else { "\n" }, if ascii { " " } else { "  " }])); }
        for _ in 0..r.range(1, 7) { s.push(*r.pick(&['a', 'b', 'c', 'd', if ascii { 'e' } else { '字' }])); }
    }
    if !ascii && r.chance(1, 10) { s.push_str("\n\nz"); }
    s
}

fn press(r: &mut Rng, w: i64, h: i64) -> (&'static str, MouseEventKind, i64, i64) {
    let b = *r.pick(&[MouseButton::Left, MouseButton::Left, MouseButton::Right]);
    let (what, kind) = match r.below(6) { 0 => ("up", MouseEventKind::Up(b)), 1 => ("moved", MouseEventKind::Moved), 2 => ("drag", MouseEventKind::Drag(b)), _ => ("down", MouseEventKind::Down(b)) };
    let (dx, dy) = if r.chance(2, 3) { (*r.pick(&[0, w - 1, w / 2]), *r.pick(&[0, h - 1, h / 2])) } else { (*r.pick(&[-1, 0, w, w - 1]), *r.pick(&[-1, 0, h, h - 1])) };
    (what, kind, dx, dy)
}

fn place(r: &mut Rng) -> (i64, i64, i64, i64, i64, i64) {
    let (w, h) = if r.chance(1, 8) { (r.range(0, 2), r.range(0, 2)) } else { (r.range(1, 26), r.range(1, 9)) };
    let (ax, ay) = (r.range(0, 3), r.range(0, 2));
    (w, h, ax, ay, ax + w + r.range(0, 6), ay + h + r.range(0, 4))
}

fn placeholder(r: &mut Rng) -> Value {
    reset_placeholder_counter();
    let turn = if r.chance(1, 3) { r.range(0, 30) } else { r.range(0, 3) };
    for _ in 0..turn { let _ = Placeholder::new(); }
    let mut p = Placeholder::new();
    let (label, id) = (if r.chance(2, 3) { text(r, false) } else { String::new() }, if r.chance(1, 2) { text(r, true).replace(' ', "-") } else { String::new() });
    if !label.is_empty() { p = p.with_label(label.clone()); }
    if !id.is_empty() { p = p.with_id(id.clone()); }
    let name = |v: PlaceholderVariant| match v { PlaceholderVariant::Default => "default", PlaceholderVariant::Size => "size", PlaceholderVariant::Text => "text" };
    let all = [PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text];
    if r.chance(1, 3) { p = p.with_variant(*r.pick(&all)); }
    let mut steps = vec![json!({"op": "new", "panic": 0, "kind": "placeholder", "variant": name(p.variant()), "label": cps(&label), "id": cps(&id), "turn": turn, "title": [], "sub": [], "across": 0})];
    for _ in 0..r.range(4, 9) {
        let (w, h, ax, ay, cw, ch) = place(r);
        let region = Region::new(ax as i32, ay as i32, w as i32, h as i32);
        match r.below(8) {
            0..=3 => {
                let mut pad = [0i64; 4];
                if r.chance(1, 2) { for q in pad.iter_mut() { *q = *r.pick(&[0, 0, 1, 2]); } }
                let (under, color, own) = (hue(r), hue(r), if r.chance(1, 3) { Some(hue(r)) } else { None });
                let (uw, wv) = match r.below(3) { 0 => (Unit::Auto, -1), 1 => (Unit::Cells, r.range(1, 30)), _ => (*r.pick(&[Unit::Percent, Unit::Fraction, Unit::ViewWidth, Unit::Width]), -2) };
                let (uh, hv) = match r.below(3) { 0 => (Unit::Auto, -1), 1 => (Unit::Cells, r.range(1, 30)), _ => (*r.pick(&[Unit::Percent, Unit::Fraction, Unit::ViewHeight, Unit::Height]), -2) };
                let none = r.chance(1, 3);
                let style = ComputedStyle {
                    color: Some(rc(color)), background: own.map(rc), inherited_background: Some(rc(under)),
                    padding: Spacing { top: sc(pad[0], Unit::Cells), right: sc(pad[1], Unit::Cells), bottom: sc(pad[2], Unit::Cells), left: sc(pad[3], Unit::Cells) },
                    width: if none && wv == -1 { None } else { Some(sc(wv.max(1), uw)) }, height: if none && hv == -1 { None } else { Some(sc(hv.max(1), uh)) },
                    ..Default::default()
                };
                Widget::<M>::set_style(&mut p, style);
                let seen = look(cw, ch, |c| Widget::<M>::render(&p, c, region));
                let panic = seen.is_none() as u8;
                let s = seen.unwrap_or(Seen { out: vec![], inks: vec![], bgs: vec![], bold: 2, dim: vec![] });
                steps.push(json!({"op": "draw", "panic": panic, "w": w, "h": h, "ax": ax, "ay": ay, "pad": pad, "under": under, "color": color, "bg": own.map_or(vec![], |c| c.to_vec()),
                    "out": s.out, "inks": s.inks, "bgs": s.bgs, "bold": s.bold}));
                let forw = r.range(1, 30);
                let g = guard(|| (Widget::<M>::desired_size(&p), Widget::<M>::intrinsic_height_for_width(&p, forw as u16)));
                steps.push(json!({"op": "wants", "panic": g.is_none() as u8, "pad": pad, "cssw": wv, "cssh": hv, "forw": forw, "size": g.map(|g| [g.0.width, g.0.height]), "tall": g.map(|g| g.1)}));
            }
            4 => {
                let v = *r.pick(&all);
                Widget::<M>::mark_clean(&mut p);
                p.set_variant(v);
                steps.push(json!({"op": "choose", "panic": 0, "v": name(v), "variant": name(p.variant()), "dirty": Widget::<M>::is_dirty(&p) as u8}));
            }
            _ => {
                let (what, kind, dx, dy) = press(r, w, h);
                let (x, y) = (ax + dx, ay + dy);
                if x < 0 || y < 0 { continue; }
                Widget::<M>::mark_clean(&mut p);
                let g = guard(|| { let _: Option<M> = p.on_mouse(MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE }, region); });
                steps.push(json!({"op": "mouse", "panic": g.is_none() as u8, "what": what, "dx": dx, "dy": dy, "w": w, "h": h, "variant": name(p.variant()), "dirty": Widget::<M>::is_dirty(&p) as u8}));
            }
        }
    }
    json!({"steps": steps})
}

fn leaf(r: &mut Rng, ruler: bool) -> Value {
    let across = r.chance(1, 2);
    let mut spin: LoadingIndicator<M> = LoadingIndicator::new();
    let mut rule: Ruler<M> = if across { Ruler::horizontal() } else { Ruler::vertical() };
    let mut steps = vec![json!({"op": "new", "panic": 0, "kind": if ruler { "ruler" } else { "spinner" }, "variant": "", "label": [], "id": [], "turn": 0, "title": [], "sub": [], "across": across as u8})];
    for _ in 0..r.range(3, 14) {
        let (w, h, ax, ay, cw, ch) = place(r);
        let region = Region::new(ax as i32, ay as i32, w as i32, h as i32);
        let wd: &mut dyn Widget<M> = if ruler { &mut rule } else { &mut spin };
        match if ruler { 0 } else { r.below(6) } {
            0 | 1 => {
                let color = hue(r);
                wd.set_style(ComputedStyle { color: Some(rc(color)), ..Default::default() });
                let seen = look(cw, ch, |c| wd.render(c, region));
                let panic = seen.is_none() as u8;
                let s = seen.unwrap_or(Seen { out: vec![], inks: vec![], bgs: vec![], bold: 2, dim: vec![] });
                steps.push(json!({"op": "draw", "panic": panic, "w": w, "h": h, "ax": ax, "ay": ay, "color": color, "out": s.out, "inks": s.inks}));
                let d = wd.desired_size();
                steps.push(json!({"op": "wants", "panic": 0, "size": [d.width, d.height]}));
            }
            2 => {
                let on = r.chance(1, 2);
                wd.mark_clean();
                let through = r.chance(1, 2);
                if through { wd.set_visible(on); } else { spin.set_visible(on); }
                steps.push(json!({"op": "show", "panic": 0, "on": on as u8, "now": Widget::<M>::is_visible(&spin) as u8, "dirty": Widget::<M>::is_dirty(&spin) as u8}));
            }
            _ => {
                wd.mark_clean();
                spin.tick();
                steps.push(json!({"op": "tick", "panic": 0, "dirty": Widget::<M>::is_dirty(&spin) as u8}));
            }
        }
    }
    json!({"steps": steps})
}

fn css_of(w: &mut dyn Widget<M>, out: &mut String) {
    out.push_str(w.default_css());
    w.for_each_child(&mut |c| css_of(c, out));
}

fn any_dirty(w: &mut dyn Widget<M>) -> bool {
    let mut d = w.is_dirty();
    w.for_each_child(&mut |c| d |= any_dirty(c));
    d
}
fn clean(w: &mut dyn Widget<M>) {
    w.mark_clean();
    w.for_each_child(&mut |c| clean(c));
}

fn header(r: &mut Rng, theme: &Theme) -> Value {
    let (mut title, mut sub) = (text(r, true), if r.chance(1, 2) { text(r, true) } else { String::new() });
    let tall = r.chance(1, 3);
    let mut h: Header<M> = Header::new(title.clone()).with_tall(tall);
    if !sub.is_empty() { h = h.with_subtitle(sub.clone()); }
    let mut css = String::new();
    css_of(&mut h, &mut css);
    let sheet = parse_stylesheet(&css).expect("default css of a header");
    let mut steps = vec![json!({"op": "new", "panic": 0, "kind": "header", "variant": "", "label": [], "id": [], "turn": 0, "title": cps(&title), "sub": cps(&sub), "across": 0})];
    for _ in 0..r.range(2, 6) {
        match r.below(5) {
            0 => {
                title = text(r, true);
                clean(&mut h);
                h.set_title(title.clone());
                steps.push(json!({"op": "title", "panic": 0, "text": cps(&title), "now": cps(h.title()), "dirty": any_dirty(&mut h) as u8}));
            }
            1 => {
                sub = if r.chance(1, 2) { text(r, true) } else { String::new() };
                clean(&mut h);
                if sub.is_empty() && r.chance(1, 2) { h.clear_subtitle(); } else { h.set_subtitle(sub.clone()); }
                steps.push(json!({"op": "subtitle", "panic": 0, "text": cps(&sub), "now": cps(h.subtitle().unwrap_or("")), "dirty": any_dirty(&mut h) as u8}));
            }
            _ => {
                let (w, hh) = (r.range(20, 60), if tall { 3 } else { 1 });
                let (ax, ay) = (r.range(0, 2), r.range(0, 2));
                let (cw, ch) = (ax + w + r.range(0, 2), ay + hh + r.range(0, 2));
                let seen = look(cw, ch, |c| {
                    resolve_styles(&mut h, &sheet, theme, &mut VecDeque::new());
                    h.render(c, Region::new(ax as i32, ay as i32, w as i32, hh as i32));
                });
                let panic = seen.is_none() as u8;
                let s = seen.unwrap_or(Seen { out: vec![], inks: vec![], bgs: vec![], bold: 2, dim: vec![] });
                let row = (ay + (hh - 1) / 2) as usize;
                let part = |v: &Vec<i64>| v[ax as usize..(ax + w) as usize].to_vec();
                let (chars, dim) = if panic == 0 { (part(&s.out[row]), part(&s.dim[row].iter().map(|d| *d as i64).collect())) } else { (vec![], vec![]) };
                steps.push(json!({"op": "draw", "panic": panic, "w": w, "h": hh, "ax": ax, "ay": ay, "out": s.out, "chars": chars, "dim": dim}));
            }
        }
    }
    json!({"steps": steps})
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x4eadd);
    let theme = Theme::standard_themes().remove("textual-dark").expect("theme");
    let n = if a.thorough { 8000 } else { 1500 };
    for i in 0..n {
        let v = match i % 8 { 0..=3 => placeholder(&mut r), 4 => leaf(&mut r, true), 5 => leaf(&mut r, false), _ => header(&mut r, &theme) };
        out.line(&v);
    }
}
