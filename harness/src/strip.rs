//! Drives the real Strip operations; a strip is projected to its terminal cells.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use tcss::types::text::AlignHorizontal;
use tcss::types::RgbaColor;
use textual::segment::{Segment, Style};
use textual::strip::Strip;

pub const GLYPHS: &[(&str, u32)] = &[
    (" ", 0), ("a", 1), ("b", 2), ("c", 3), ("e\u{301}", 4), ("…", 5), ("d", 6),
    ("中", 100), ("日", 101), ("👩", 102), ("👩\u{200D}💻", 103),
];
pub fn glyph_id(s: &str) -> i64 {
    GLYPHS.iter().find(|g| g.0 == s).map(|g| g.1 as i64).unwrap_or(-1)
}
pub fn glyph(id: u32) -> &'static str {
    GLYPHS.iter().find(|g| g.1 == id).unwrap().0
}

/// Split into the driver's known clusters (longest match first).
pub fn clusters(s: &str) -> Vec<(i64, usize)> {
    let mut out = vec![];
    let mut rest = s;
    'o: while !rest.is_empty() {
        for g in ["👩\u{200D}💻", "e\u{301}", " ", "a", "b", "c", "d", "…", "中", "日", "👩"] {
            if let Some(r) = rest.strip_prefix(g) {
                let id = glyph_id(g);
                out.push((id, if id >= 100 { 2 } else { 1 }));
                rest = r;
                continue 'o;
            }
        }
        let c = rest.chars().next().unwrap();
        out.push((-1000 - c as i64, 1));
        rest = &rest[c.len_utf8()..];
    }
    out
}

pub fn color(i: u32) -> Option<RgbaColor> {
    match i {
        0 => None,
        n => Some(RgbaColor::rgb(n as u8, 10, 20)),
    }
}
pub fn style(t: (u32, u32, u32)) -> Style {
    Style {
        fg: color(t.0), bg: color(t.1),
        bold: t.2 & 1 != 0, dim: t.2 & 2 != 0, italic: t.2 & 4 != 0,
        underline: t.2 & 8 != 0, strike: t.2 & 16 != 0, reverse: t.2 & 32 != 0,
    }
}
fn col_id(c: &Option<RgbaColor>) -> i64 {
    match c { None => 0, Some(c) => c.r as i64 }
}
pub fn style_ids(s: Option<&Style>) -> (i64, i64, i64) {
    match s {
        None => (0, 0, 0),
        Some(s) => (
            col_id(&s.fg), col_id(&s.bg),
            s.bold as i64 | (s.dim as i64) << 1 | (s.italic as i64) << 2 | (s.underline as i64) << 3 | (s.strike as i64) << 4 | (s.reverse as i64) << 5,
        ),
    }
}
fn meta_id(s: &Segment) -> i64 {
    s.get_meta("@click").map(|m| m.parse().unwrap_or(-1)).unwrap_or(0)
}

pub fn cells(s: &Strip) -> Value {
    let mut out = vec![];
    for seg in s.segments() {
        let (f, b, a) = style_ids(seg.style());
        let m = meta_id(seg);
        for (g, w) in clusters(seg.text()) {
            if w == 2 {
                out.push(json!([g, 1, f, b, a, m]));
                out.push(json!([g, 2, f, b, a, m]));
            } else {
                out.push(json!([g, 0, f, b, a, m]));
            }
        }
    }
    Value::Array(out)
}

fn rstyle(r: &mut Rng) -> (u32, u32, u32) {
    (if r.chance(1, 2) { 0 } else { 40 * r.range(1, 3) as u32 }, if r.chance(1, 2) { 0 } else { *r.pick(&[201, 222]) },
     if r.chance(1, 2) { 0 } else { 1 << r.below(6) })
}

fn segment(r: &mut Rng, max: usize) -> Segment {
    let n = r.below(max + 1);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(match r.below(10) { 0..=3 => glyph(r.range(1, 4) as u32), 4 | 5 => " ", _ => glyph(100 + r.below(4) as u32) });
    }
    let st = rstyle(r);
    let mut s = if st == (0, 0, 0) { Segment::new(t) } else { Segment::styled(t, style(st)) };
    if r.chance(1, 3) {
        s = s.with_meta(HashMap::from([("@click".to_string(), r.range(1, 2).to_string())]));
    }
    s
}
fn rstrip(r: &mut Rng) -> Strip {
    let n = r.below(4);
    // the three constructors must agree
    let segs: Vec<Segment> = (0..n).map(|_| segment(r, 4)).collect();
    match r.below(3) {
        0 => Strip::from_iter(segs),
        1 if segs.len() == 1 => Strip::from_segment(segs[0].clone()),
        _ => Strip::from_segments(segs),
    }
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x57);
    let n = if a.thorough { 30000 } else { 4000 };
    for _ in 0..n {
        let mut cur = rstrip(&mut r);
        let mut steps = vec![json!({"op":"set","x":cells(&cur),"out":cells(&cur),"len":cur.cell_length(),"panic":0})];
        for _ in 0..r.range(2, 7) {
            let len = cur.cell_length() as i64;
            let k = r.below(16);
            let pad = rstyle(&mut r);
            let pads = if pad == (0, 0, 0) { None } else { Some(style(pad)) };
            let pj = json!([pad.0, pad.1, pad.2]);
            let w = r.range(0, len + 4) as usize;
            let mut e = json!({});
            let res: Option<(Strip, Value)> = match k {
                0..=2 => {
                    let (x, y) = (r.range(0, len + 1) as usize, r.range(0, len + 2) as usize);
                    let (x, y) = if r.chance(3, 4) { (x.min(y), x.max(y)) } else { (x, y) };
                    e = json!({"op":"crop","a":x,"b":y});
                    guard(|| (cur.crop(x, y), json!(0)))
                }
                3 => {
                    let mut cuts: Vec<usize> = (0..r.below(4)).map(|_| r.range(0, len + 2) as usize).collect();
                    if r.chance(3, 4) { cuts.sort(); }
                    e = json!({"op":"divide","cuts":cuts});
                    guard(|| {
                        let p = cur.divide(&cuts);
                        let pv: Vec<Value> = p.iter().map(cells).collect();
                        (Strip::join(p), json!(pv))
                    })
                }
                4 => {
                    let st = rstyle(&mut r);
                    e = json!({"op":"overlay","st":[st.0, st.1, st.2]});
                    guard(|| (cur.apply_style(&style(st)), json!(0)))
                }
                5 => {
                    e = json!({"op":"simplify"});
                    guard(|| (cur.simplify(), json!(0)))
                }
                6 => {
                    let (x, y) = (rstrip(&mut r), rstrip(&mut r));
                    if len > 10 { Some((cur.clone(), json!(-1))) } else {
                        e = json!({"op":"join","x":cells(&x),"y":cells(&y)});
                        guard(|| (Strip::join(vec![x, cur.clone(), y]), json!(0)))
                    }
                }
                7 => { e = json!({"op":"adjust","n":w,"p":pj}); guard(|| (cur.adjust_cell_length(w, pads.clone()), json!(0))) }
                8 | 9 => {
                    let (al, h) = *r.pick(&[("left", AlignHorizontal::Left), ("right", AlignHorizontal::Right), ("center", AlignHorizontal::Center)]);
                    e = json!({"op":"align","al":al,"n":w,"p":pj});
                    guard(|| (cur.text_align(h, w, pads.clone()), json!(0)))
                }
                10 => { e = json!({"op":"justify","n":w,"p":pj}); guard(|| (cur.justify(w, pads.clone()), json!(0))) }
                12 => {
                    let (num, fb) = (r.range(1, 4), *r.pick(&[0u32, 201, 100]));
                    e = json!({"op":"fade","num":num,"fb":fb});
                    guard(|| (cur.apply_text_opacity(num as f64 / 4.0, color(fb).as_ref()), json!(0)))
                }
                13 => {
                    let (num, to) = (r.range(0, 4), *r.pick(&[1u32, 100, 250]));
                    e = json!({"op":"tint","num":num,"to":to});
                    let mut c = color(to).unwrap();
                    c.a = num as f32 / 4.0;
                    guard(|| (cur.apply_tint(&c), json!(0)))
                }
                14 if cur.segments().len() == 1 => {
                    let c = r.range(0, len + 1) as usize;
                    e = json!({"op":"split","at":c});
                    guard(|| {
                        let (x, y) = cur.segments()[0].split_at(c);
                        let p = vec![Strip::from_segment(x), Strip::from_segment(y)];
                        let pv: Vec<Value> = p.iter().map(cells).collect();
                        let lens: Vec<usize> = p.iter().map(|s| s.cell_length()).collect();
                        (Strip::join(p), json!([pv, lens]))
                    })
                }
                _ => {
                    if r.chance(1, 3) { e = json!({"op":"hide"}); guard(|| (cur.apply_text_opacity(0.0, None), json!(0))) }
                    else { Some((cur.clone(), json!(-1))) }
                }
            };
            if e.get("op").is_none() { continue; }
            match res {
                None => { e["panic"] = json!(1); steps.push(e); break; }
                Some((s, x)) => {
                    e["panic"] = json!(0);
                    if e["op"] == "split" { e["parts"] = x[0].clone(); e["lens"] = x[1].clone(); } else if k == 3 { e["parts"] = x; }
                    e["out"] = cells(&s);
                    e["len"] = json!(s.cell_length());
                    steps.push(e);
                    cur = s;
                }
            }
        }
        out.line(&json!({"steps": steps}));
    }
}
