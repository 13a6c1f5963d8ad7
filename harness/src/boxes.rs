//! Drives the real Static widget: its whole picture on a canvas, its links, its hover state.
use crate::common::*;
use crate::strip::{clusters, color, glyph};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use crossterm::style::Color;
use serde_json::{json, Value};
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::text::{TextAlign, TextStyle};
use tcss::types::{AlignHorizontal, AlignVertical, BoxSizing, ComputedStyle, Hatch, HatchPattern, LinkStyle, TextOverflow, TextWrap, Visibility};
use tcss::types::geometry::{Scalar, Spacing, Unit};
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::{Static, Widget};

const KINDS: &[(&str, BorderKind)] = &[
    ("none", BorderKind::None), ("hidden", BorderKind::Hidden), ("ascii", BorderKind::Ascii), ("blank", BorderKind::Blank), ("block", BorderKind::Block),
    ("double", BorderKind::Double), ("dashed", BorderKind::Dashed), ("heavy", BorderKind::Heavy), ("hkey", BorderKind::Hkey), ("outer", BorderKind::Outer),
    ("inner", BorderKind::Inner), ("panel", BorderKind::Panel), ("round", BorderKind::Round), ("solid", BorderKind::Solid), ("tall", BorderKind::Tall),
    ("thick", BorderKind::Thick), ("vkey", BorderKind::Vkey), ("wide", BorderKind::Wide),
];
fn edges(r: &mut Rng, bc: bool) -> ([usize; 4], [u32; 4]) {
    let k = match r.below(6) {
        0 => [0; 4],
        1 | 2 => { let k = r.below(KINDS.len()); [k; 4] }
        3 => { let k = r.below(KINDS.len()); let mut v = [0; 4]; for e in v.iter_mut() { if r.chance(1, 2) { *e = k } } v }
        _ => { let mut v = [0; 4]; for e in v.iter_mut() { if r.chance(2, 3) { *e = r.below(KINDS.len()) } } v }
    };
    let one = if r.chance(1, 3) { 0 } else { r.range(20, 23) as u32 };
    let c = if bc && r.chance(1, 3) { let mut v = [0; 4]; for e in v.iter_mut() { if r.chance(2, 3) { *e = r.range(20, 25) as u32 } } v } else { [one; 4] };
    (k, c)
}
fn border(k: &[usize; 4], c: &[u32; 4]) -> Border {
    let e = |i: usize| BorderEdge { kind: KINDS[k[i]].1, color: color(c[i]) };
    Border { top: e(0), right: e(1), bottom: e(2), left: e(3) }
}
fn ts(a: u32) -> TextStyle {
    TextStyle { bold: a & 1 != 0, dim: a & 2 != 0, italic: a & 4 != 0, underline: a & 8 != 0, strike: a & 16 != 0, reverse: a & 32 != 0, ..Default::default() }
}
fn attrs(r: &mut Rng) -> u32 { if r.chance(1, 2) { 0 } else { r.below(64) as u32 } }
fn maybe(r: &mut Rng, a: i64, b: i64) -> u32 { if r.chance(1, 2) { 0 } else { r.range(a, b) as u32 } }
fn label(r: &mut Rng) -> Vec<u32> {
    let n = *r.pick(&[0, 0, 1, 2, 3, 5, 8, 12]);
    (0..n).map(|_| *r.pick(&[0u32, 1, 2, 3, 4, 6, 100, 101, 1, 2])).collect()
}
fn gs(v: &[u32]) -> String { v.iter().map(|&g| glyph(g)).collect() }
fn cells(v: f64) -> Scalar { Scalar { value: v, unit: Unit::Cells } }

const CW: u16 = 16;
const CH: u16 = 8;
fn col(c: Option<Color>) -> i64 {
    match c { None => 0, Some(Color::Rgb { r, g: 10, b: 20 }) => r as i64, Some(_) => -1 }
}
fn canvas() -> Canvas {
    let mut c = Canvas::new(CW, CH);
    for y in 0..CH { c.put_str(0, y as i32, &"d".repeat(CW as usize), color(9), color(9), TextAttributes::default()); }
    c
}
fn grid(c: &Canvas) -> Value {
    let n = CW as usize * CH as usize;
    let mut prev = 0;
    Value::Array((0..n).map(|i| {
        let k = c.cell_at(i);
        let (g, half) = if k.continuation { (prev, 2) } else { let v = clusters(&k.symbol); if v.len() == 1 { (v[0].0, if v[0].1 == 2 { 1 } else { 0 }) } else { (-5, 0) } };
        prev = g;
        let a = k.attrs;
        let at = a.bold as i64 | (a.dim as i64) << 1 | (a.italic as i64) << 2 | (a.underline as i64) << 3 | (a.strike as i64) << 4 | (a.reverse as i64) << 5;
        json!([g, half, col(k.fg), col(k.bg), at])
    }).collect())
}
fn ev(kind: MouseEventKind, x: i32, y: i32) -> MouseEvent { MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE } }
fn act(a: Option<String>) -> i64 {
    a.map(|m| m.strip_prefix("app.go(").and_then(|m| m.strip_suffix(')')).and_then(|m| m.parse::<i64>().ok()).unwrap_or(-1)).unwrap_or(0)
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xb0c5);
    let n = if a.thorough { 12000 } else { 2000 };
    for _ in 0..n {
        let (bk, bc) = edges(&mut r, true);
        let (ok, oc) = if r.chance(1, 4) { edges(&mut r, true) } else { ([0; 4], [0; 4]) };
        let (w, h) = if r.chance(1, 5) { (r.range(1, 4), r.range(1, 3)) } else { (r.range(3, 14), r.range(2, 7)) };
        let mut pad = [0i64; 4];
        if r.chance(1, 2) { for p in pad.iter_mut() { *p = *r.pick(&[0, 0, 1, 1, 2]) } }
        let clr = maybe(&mut r, 30, 32);
        let bg = maybe(&mut r, 40, 42);
        let inh = maybe(&mut r, 50, 52);
        let at = attrs(&mut r);
        let (title, sub) = (label(&mut r), label(&mut r));
        let al = ["left", "center", "right"];
        let (tal, sal, ha) = (r.below(3), r.below(3), if r.chance(1, 2) { 0 } else { r.below(3) });
        let va = if r.chance(1, 2) { 0 } else { r.below(3) };
        let ta = r.below(6);
        let (tcol, scol, tbg, sbg) = (maybe(&mut r, 60, 61), maybe(&mut r, 62, 63), maybe(&mut r, 64, 65), maybe(&mut r, 66, 67));
        let (tat, sat) = (attrs(&mut r), attrs(&mut r));
        let (wrap, over) = (r.chance(2, 3), r.below(3));
        let lp = *r.pick(&[0, 0, 0, 1, 2]);
        let (lcol, lbg, lcolh, lbgh) = (if r.chance(1, 4) { 0 } else { r.range(70, 71) as u32 }, maybe(&mut r, 72, 73), maybe(&mut r, 74, 75), maybe(&mut r, 76, 77));
        let (lat, lath) = (attrs(&mut r), attrs(&mut r));
        let hatch = if r.chance(1, 10) { 1 + r.below(6) } else { 0 };
        let hidden = r.chance(1, 40);
        let aligns = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right];
        let pats = [HatchPattern::Left, HatchPattern::Right, HatchPattern::Cross, HatchPattern::Horizontal, HatchPattern::Vertical, HatchPattern::Custom('d')];
        let style = ComputedStyle {
            color: color(clr), background: color(bg), inherited_background: color(inh),
            padding: Spacing { top: cells(pad[0] as f64), right: cells(pad[1] as f64), bottom: cells(pad[2] as f64), left: cells(pad[3] as f64) },
            border: border(&bk, &bc), outline: border(&ok, &oc),
            border_title_align: aligns[tal], border_subtitle_align: aligns[sal],
            border_title_color: color(tcol), border_subtitle_color: color(scol),
            border_title_background: color(tbg), border_subtitle_background: color(sbg),
            border_title_style: ts(tat), border_subtitle_style: ts(sat),
            text_align: [TextAlign::Start, TextAlign::End, TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify][ta],
            text_style: ts(at),
            text_overflow: [TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis][over],
            text_wrap: if wrap { TextWrap::Wrap } else { TextWrap::NoWrap },
            line_pad: lp,
            content_align_horizontal: aligns[ha],
            content_align_vertical: [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom][va],
            visibility: if hidden { Visibility::Hidden } else { Visibility::Visible },
            link: LinkStyle { color: color(lcol), background: color(lbg), color_hover: color(lcolh), background_hover: color(lbgh), style: ts(lat), style_hover: ts(lath) },
            hatch: (hatch > 0).then(|| Hatch { pattern: pats[hatch - 1].clone(), color: color(80).unwrap(), opacity: 1.0 }),
            ..Default::default()
        };
        let mut style = style;
        let auto = r.chance(1, 2);
        let len = |r: &mut Rng| match r.below(4) { 0 => (0i64, if auto { None } else { Some(Scalar { value: 0.0, unit: Unit::Auto }) }), 1 => (-1, Some(Scalar { value: 50.0, unit: *r.pick(&[Unit::Percent, Unit::Fraction, Unit::ViewWidth, Unit::ViewHeight, Unit::Width, Unit::Height]) })), _ => { let n = r.range(1, 20); (n, Some(cells(n as f64))) } };
        let ((sw, swv), (sh, shv)) = (len(&mut r), len(&mut r));
        style.width = swv;
        style.height = shv;
        let cb = r.chance(1, 2);
        style.box_sizing = if cb { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
        let hg = if hatch == 0 { 0 } else { [-1000 - '╲' as i64, -1000 - '╱' as i64, -1000 - '╳' as i64, -1000 - '─' as i64, -1000 - '│' as i64, 6][hatch - 1] };
        // text: runs of glyphs, some of them links
        let mut text: Vec<(i64, i64)> = vec![];
        let mut src = String::new();
        let runs = *r.pick(&[0, 1, 1, 2, 3, 4]);
        for _ in 0..runs {
            let k = if r.chance(1, 2) { r.range(1, 3) } else { 0 };
            let n = r.range(1, 9);
            if k > 0 { src += &format!("[@click=app.go({k})]"); }
            for _ in 0..n {
                let g = *r.pick(&[0i64, 1, 2, 3, 4, 6, 100, 101, 1, 2, 0, -1]);
                if g == -1 { text.push((-1, k)); src.push('\n'); } else { text.push((g, k)); src += glyph(g as u32); }
            }
            if k > 0 { src += "[/]"; }
        }
        // text that is no markup is shown as it is
        if r.chance(1, 12) {
            let s = *r.pick(&["[", "[c", "c\\", "[]", "a[/x"]);
            text.clear();
            for ch in s.chars() { text.push((match ch { 'a' => 1, 'c' => 3, c => -1000 - c as i64 }, 0)); }
            src = s.to_string();
        }
        let c = json!({"w": w, "h": h, "bk": bk.map(|k| KINDS[k].0), "bc": bc, "ok": ok.map(|k| KINDS[k].0), "oc": oc, "pad": pad, "color": clr, "bg": bg, "inh": inh, "at": at,
            "title": title, "sub": sub, "tal": al[tal], "sal": al[sal], "ha": al[ha], "va": (["top", "middle", "bottom"][va]), "ta": (["start", "end", "left", "center", "right", "justify"][ta]),
            "tcol": tcol, "scol": scol, "tbg": tbg, "sbg": sbg, "tat": tat, "sat": sat, "wrap": if wrap { "wrap" } else { "nowrap" }, "over": (["fold", "clip", "ellipsis"][over]),
            "lp": lp, "lcol": lcol, "lbg": lbg, "lcolh": lcolh, "lbgh": lbgh, "lat": lat, "lath": lath, "hatch": hg, "hcol": 80, "hidden": hidden as u8, "sw": sw, "sh": sh, "cb": cb as u8,
            "text": text.iter().map(|t| json!([t.0, t.1])).collect::<Vec<_>>()});
        let mut s: Static<u32> = Static::new(src.clone());
        if !title.is_empty() { s = s.with_border_title(gs(&title)); }
        if !sub.is_empty() { s = s.with_border_subtitle(gs(&sub)); }
        s.set_style(style);
        let (ox, oy) = (r.range(-2, 3) as i32, r.range(-1, 2) as i32);
        let reg = Region::new(ox, oy, w as i32, h as i32);
        let mut steps = vec![json!({"op": "setup", "panic": 0, "c": c, "src": src})];
        let draw = |s: &Static<u32>| {
            let g = guard(|| { let mut cv = canvas(); s.render(&mut cv, reg); grid(&cv) });
            json!({"op": "draw", "panic": g.is_none() as u8, "x": ox, "y": oy, "cw": CW, "grid": g})
        };
        steps.push(draw(&s));
        let fw = r.range(1, 20) as u16;
        let g = guard(|| (s.desired_size(), s.intrinsic_height_for_width(fw)));
        steps.push(json!({"op": "size", "panic": g.is_none() as u8, "raw": (!src.contains("@click")) as u8, "w": g.map(|g| g.0.width), "h": g.map(|g| g.0.height), "forw": fw, "forh": g.map(|g| g.1)}));
        // press everywhere
        let hits: Option<Vec<i64>> = guard(|| {
            let mut v = vec![];
            for y in 0..CH as i32 { for x in 0..CW as i32 {
                let _ = s.on_mouse(ev(MouseEventKind::Down(MouseButton::Left), x, y), reg);
                v.push(act(s.take_pending_action()));
            } }
            v
        });
        if !hidden { steps.push(json!({"op": "links", "panic": hits.is_none() as u8, "x": ox, "y": oy, "cw": CW, "hits": hits})); }
        if ok == [0; 4] && !hidden {
            let spots: Vec<(i32, i32)> = hits.as_ref().map(|h: &Vec<i64>| h.iter().enumerate().filter(|(_, k)| **k > 0).map(|(i, _)| ((i % CW as usize) as i32, (i / CW as usize) as i32)).collect()).unwrap_or_default();
            for _ in 0..r.range(1, 6) {
                let (x, y) = if !spots.is_empty() && r.chance(1, 2) { *r.pick(&spots) } else { (r.below(CW as usize) as i32, r.below(CH as usize) as i32) };
                let (px, py) = (x - ox, y - oy);
                let inside = reg.contains_point(x, y);
                // whether an ellipsis acts as the link it cuts short is left open
                let shown = guard(|| { let mut cv = canvas(); s.render(&mut cv, reg); cv.cell_at((y * CW as i32 + x) as usize).symbol.clone() });
                if shown.as_deref() == Some("…") { continue; }
                match r.below(6) {
                    0..=2 if inside => {
                        let g = guard(|| { let _ = s.on_mouse(ev(MouseEventKind::Moved, x, y), reg); act(s.hovered_link()) });
                        steps.push(json!({"op": "move", "panic": g.is_none() as u8, "px": px, "py": py, "hover": g}));
                        if r.chance(1, 2) { steps.push(draw(&s)); }
                    }
                    3 => {
                        let g = guard(|| { let _ = s.on_mouse(ev(MouseEventKind::Down(MouseButton::Left), x, y), reg); });
                        steps.push(json!({"op": "press", "panic": g.is_none() as u8, "px": px, "py": py}));
                    }
                    4 => {
                        let g = guard(|| act(s.take_pending_action()));
                        steps.push(json!({"op": "take", "panic": g.is_none() as u8, "got": g}));
                    }
                    _ => {
                        let g = guard(|| { s.clear_hover(); act(s.hovered_link()) });
                        steps.push(json!({"op": "leave", "panic": g.is_none() as u8, "hover": g}));
                        if r.chance(1, 3) { steps.push(draw(&s)); }
                    }
                }
            }
        }
        out.line(&json!({"steps": steps}));
    }
}
