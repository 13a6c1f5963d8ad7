//! Drives Content's line layout and Static's height request.
use crate::common::*;
use crate::strip::{clusters, glyph, style, style_ids};
use serde_json::{json, Value};
use tcss::types::{TextOverflow, TextWrap};
use textual::content::Content;
use textual::widget::static_widget::Static;
use textual::Widget;

fn text_of(x: &[(i64, u32)]) -> String {
    x.iter().map(|c| if c.0 < 0 { "\n" } else { glyph(c.0 as u32) }).collect()
}

fn markup_of(x: &[(i64, u32)]) -> String {
    let mut s = String::new();
    let mut cur = 0;
    for c in x {
        if c.1 != cur {
            if cur != 0 { s.push_str("[/]"); }
            if c.1 != 0 { s.push_str(&format!("[#{:02x}0a14]", c.1)); }
            cur = c.1;
        }
        s.push_str(&text_of(std::slice::from_ref(c)));
    }
    if cur != 0 { s.push_str("[/]"); }
    s
}

fn case(x: &[(i64, u32)], styled: bool, base: u32, w: usize, mode: &str, over: &str) -> Value {
    let ov = match over { "fold" => TextOverflow::Fold, "clip" => TextOverflow::Clip, _ => TextOverflow::Ellipsis };
    let tw = if mode == "wrap" { TextWrap::Wrap } else { TextWrap::NoWrap };
    let r = guard(|| {
        let src = if styled { markup_of(x) } else { text_of(x) };
        let mut c = if styled { Content::from_markup(&src).expect("markup") } else { Content::new(src.clone()) };
        if base != 0 { c = c.with_style(style((base, 0, 0))); }
        let lines = c.wrap_with_line_end_overflow(w, ov, tw);
        let out: Vec<Value> = lines.iter().map(|l| {
            let mut cells = vec![];
            for s in l.strip.segments() {
                let f = style_ids(s.style()).0;
                for (g, _) in clusters(s.text()) { cells.push(json!([g, f])); }
            }
            json!({"t": cells, "e": l.line_end as u32})
        }).collect();
        let mut st: Static<()> = Static::new(src).with_markup(styled);
        let mut cs = st.get_style();
        cs.text_overflow = ov;
        cs.text_wrap = tw;
        st.set_style(cs);
        (out, st.intrinsic_height_for_width(w as u16))
    });
    let xs: Vec<Value> = x.iter().map(|c| json!([c.0, c.1])).collect();
    match r {
        Some((o, h)) => json!({"op":format!("{mode}-{over}"),"panic":0,"x":xs,"b":base,"w":w,"mode":mode,"over":over,"out":o,"h":h}),
        None => json!({"op":format!("{mode}-{over}"),"panic":1,"x":xs,"b":base,"w":w,"mode":mode,"over":over}),
    }
}

const MODES: &[(&str, &str)] = &[("wrap", "fold"), ("wrap", "ellipsis"), ("wrap", "clip"), ("nowrap", "fold"), ("nowrap", "clip"), ("nowrap", "ellipsis")];

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x77);
    // every text over {a, blank, wide} up to a length, every width
    let maxlen = if a.thorough { 7 } else { 5 };
    let al = [1i64, 0, 100];
    for len in 0..=maxlen {
        let total = 3usize.pow(len as u32);
        for code in 0..total {
            let mut c = code;
            let mut steps = vec![];
            let x: Vec<(i64, u32)> = (0..len).map(|i| { let g = al[c % 3]; c /= 3; (g, if i % 3 == 2 { 1 } else { 0 }) }).collect();
            let p: Vec<(i64, u32)> = x.iter().map(|c| (c.0, 0)).collect();
            for w in 1..=5 {
                steps.push(case(&p, false, 0, w, "wrap", "fold"));
                steps.push(case(&x, true, 0, w, "wrap", "fold"));
                let (m, o) = MODES[1 + (code + w) % 5];
                steps.push(case(&x, true, 0, w, m, o));
            }
            out.line(&json!({"steps": steps}));
        }
    }
    let n = if a.thorough { 12000 } else { 1500 };
    for _ in 0..n {
        let mut steps = vec![];
        let len = r.range(0, 22);
        let styled = r.chance(2, 3);
        let mut sty = 0;
        let x: Vec<(i64, u32)> = (0..len).map(|_| {
            if styled && r.chance(1, 3) { sty = r.below(3) as u32; }
            let g = match r.below(14) { 0..=5 => r.range(1, 4), 6..=9 => 0, 10 => -1, _ => 100 + r.below(4) as i64 };
            (g, sty)
        }).collect();
        let base = if r.chance(1, 3) { 7 } else { 0 };
        for _ in 0..4 {
            let w = if r.chance(1, 25) { 0 } else { r.range(1, 12) as usize };
            let (m, o) = if r.chance(1, 2) { MODES[0] } else { *r.pick(MODES) };
            steps.push(case(&x, styled, base, w, m, o));
        }
        out.line(&json!({"steps": steps}));
    }
}
