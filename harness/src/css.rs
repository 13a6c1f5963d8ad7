//! Style sheets: random sheets as data, printed as text, parsed and applied by the real code.
use crate::common::*;
use serde_json::{json, Value};
use tcss::parser::{cascade::{compute_style, WidgetMeta, WidgetStates}, parse_stylesheet};
use tcss::types::{BorderEdge, ComputedStyle, RgbaColor, Scalar, TextStyle, Theme, Unit};

// ---------- canonical observation of a computed style ----------
pub fn scalar(s: &Scalar) -> String {
    let u = match s.unit { Unit::Cells => "", Unit::Percent => "%", Unit::Width => "w", Unit::Height => "h", Unit::ViewWidth => "vw", Unit::ViewHeight => "vh", Unit::Fraction => "fr", Unit::Auto => return "auto".into() };
    format!("{}{u}", s.value)
}
pub fn colour(c: &RgbaColor) -> String {
    if let Some(v) = &c.theme_var { return format!("?{v}"); }
    if let Some(n) = c.ansi { return format!("ansi{n}"); }
    if c.auto { format!("auto,{}", c.a) } else { format!("{},{},{},{}", c.r, c.g, c.b, c.a) }
}
fn low<T: std::fmt::Debug>(x: &T) -> String { format!("{x:?}").to_lowercase() }
fn o<T>(x: &Option<T>, f: impl Fn(&T) -> String) -> String { x.as_ref().map(f).unwrap_or("-".into()) }
fn edge(e: &BorderEdge) -> String { format!("{} {}", low(&e.kind), o(&e.color, colour)) }
fn list(v: &[Scalar]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(scalar).collect::<Vec<_>>().join(" ") } }
fn flags(p: &str, t: &TextStyle, out: &mut Vec<(String, String)>) {
    for (n, b) in [("bold", t.bold), ("dim", t.dim), ("italic", t.italic), ("underline", t.underline), ("underline2", t.underline2), ("blink", t.blink), ("blink2", t.blink2), ("reverse", t.reverse), ("strike", t.strike), ("overline", t.overline)] {
        out.push((format!("{p}.{n}"), (b as u8).to_string()));
    }
    if let Some(v) = &t.theme_var { out.push((format!("{p}.var"), v.clone())); }
}
/// Every field of the style, as (property, value).
pub fn fields(s: &ComputedStyle) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    macro_rules! f { ($n:expr, $e:expr) => { v.push(($n.to_string(), $e)) }; }
    f!("color", o(&s.color, colour)); f!("auto-color", (s.auto_color as u8).to_string()); f!("background", o(&s.background, colour));
    f!("tint", o(&s.tint, colour)); f!("background-tint", o(&s.background_tint, colour)); f!("inherited-background", o(&s.inherited_background, colour));
    f!("width", o(&s.width, scalar)); f!("height", o(&s.height, scalar)); f!("min-width", o(&s.min_width, scalar)); f!("max-width", o(&s.max_width, scalar));
    f!("min-height", o(&s.min_height, scalar)); f!("max-height", o(&s.max_height, scalar));
    for (n, x) in [("margin", &s.margin), ("padding", &s.padding)] {
        f!(format!("{n}-top"), scalar(&x.top)); f!(format!("{n}-right"), scalar(&x.right)); f!(format!("{n}-bottom"), scalar(&x.bottom)); f!(format!("{n}-left"), scalar(&x.left));
    }
    for (n, x) in [("border", &s.border), ("outline", &s.outline)] {
        f!(format!("{n}-top"), edge(&x.top)); f!(format!("{n}-right"), edge(&x.right)); f!(format!("{n}-bottom"), edge(&x.bottom)); f!(format!("{n}-left"), edge(&x.left));
    }
    f!("box-sizing", low(&s.box_sizing)); f!("border-title-align", low(&s.border_title_align)); f!("border-subtitle-align", low(&s.border_subtitle_align));
    f!("border-title-color", o(&s.border_title_color, colour)); f!("border-subtitle-color", o(&s.border_subtitle_color, colour));
    f!("border-title-background", o(&s.border_title_background, colour)); f!("border-subtitle-background", o(&s.border_subtitle_background, colour));
    flags("border-title-style", &s.border_title_style, &mut v); flags("border-subtitle-style", &s.border_subtitle_style, &mut v); flags("text-style", &s.text_style, &mut v);
    macro_rules! f { ($n:expr, $e:expr) => { v.push(($n.to_string(), $e)) }; }
    f!("text-align", low(&s.text_align)); f!("text-opacity", s.text_opacity.to_string()); f!("text-overflow", low(&s.text_overflow)); f!("text-wrap", low(&s.text_wrap));
    f!("line-pad", s.line_pad.to_string()); f!("content-align-horizontal", low(&s.content_align_horizontal)); f!("content-align-vertical", low(&s.content_align_vertical));
    f!("align-horizontal", low(&s.align_horizontal)); f!("align-vertical", low(&s.align_vertical)); f!("display", low(&s.display)); f!("visibility", low(&s.visibility));
    f!("opacity", s.opacity.to_string()); f!("layout", low(&s.layout)); f!("position", low(&s.position)); f!("dock", o(&s.dock, low));
    f!("layers", o(&s.layers, |l| l.join(" "))); f!("layer", o(&s.layer, |l| l.clone()));
    f!("grid-cols", o(&s.grid.columns, |x| x.to_string())); f!("grid-count", o(&s.grid.rows, |x| x.to_string()));
    f!("grid-columns", list(&s.grid.column_widths)); f!("grid-rows", list(&s.grid.row_heights)); f!("gutter-v", scalar(&s.grid.gutter.0)); f!("gutter-h", scalar(&s.grid.gutter.1));
    f!("column-span", s.grid_placement.column_span.to_string()); f!("row-span", s.grid_placement.row_span.to_string());
    f!("overflow-x", low(&s.overflow_x)); f!("overflow-y", low(&s.overflow_y));
    let b = &s.scrollbar;
    for (n, c) in [("color", &b.color), ("color-hover", &b.color_hover), ("color-active", &b.color_active), ("background", &b.background), ("background-hover", &b.background_hover), ("background-active", &b.background_active), ("corner-color", &b.corner_color)] {
        f!(format!("scrollbar-{n}"), o(c, colour));
    }
    f!("scrollbar-size-horizontal", b.size.horizontal.to_string()); f!("scrollbar-size-vertical", b.size.vertical.to_string());
    f!("scrollbar-gutter", low(&b.gutter)); f!("scrollbar-visibility", low(&b.visibility));
    let l = &s.link;
    for (n, c) in [("color", &l.color), ("color-hover", &l.color_hover), ("background", &l.background), ("background-hover", &l.background_hover)] { f!(format!("link-{n}"), o(c, colour)); }
    flags("link-style", &l.style, &mut v); flags("link-style-hover", &l.style_hover, &mut v);
    v.push(("hatch".into(), o(&s.hatch, |h| { let c = match h.pattern { tcss::types::HatchPattern::Custom(c) => if c.is_ascii() { c.to_string() } else { format!("U{:x}", c as u32) }, ref p => low(p) }; format!("{c} {} {}", colour(&h.color), h.opacity) })));
    v.push(("keyline".into(), format!("{} {}", low(&s.keyline.style), colour(&s.keyline.color))));
    v.push(("offset-x".into(), o(&s.offset_x, scalar))); v.push(("offset-y".into(), o(&s.offset_y, scalar)));
    v
}
const ONE: [&str; 5] = ["text-opacity", "opacity", "column-span", "row-span", "scrollbar-size-horizontal"];
fn initial(f: &str) -> &'static str {
    if ["auto-color", "line-pad", "gutter-v", "gutter-h"].contains(&f) || f.starts_with("margin-") || f.starts_with("padding-") || (f.contains("-style") && f.contains('.') && !f.ends_with(".var")) { return "0"; }
    if ONE.contains(&f) { return "1"; }
    match f {
        "border-top" | "border-right" | "border-bottom" | "border-left" | "outline-top" | "outline-right" | "outline-bottom" | "outline-left" => "none -",
        "border-title-align" | "content-align-horizontal" | "align-horizontal" => "left",
        "content-align-vertical" | "align-vertical" => "top",
        "overflow-x" | "overflow-y" => "hidden",
        "border-subtitle-align" => "right", "box-sizing" => "borderbox", "text-align" => "start", "text-overflow" => "fold", "text-wrap" => "wrap",
        "display" => "block", "visibility" | "scrollbar-visibility" => "visible", "layout" => "vertical", "position" => "relative",
        "scrollbar-size-vertical" => "2", "scrollbar-gutter" => "auto", "keyline" => "none 0,0,0,1",
        _ => "-",
    }
}
/// The fields whose value is not the initial one.
pub fn observe(s: &ComputedStyle) -> Vec<(String, String)> { fields(s).into_iter().filter(|(k, v)| initial(k) != v).collect() }

// ---------- sheets as data ----------
#[derive(Clone)]
pub struct Simple { pub k: &'static str, pub n: String }
#[derive(Clone)]
pub struct Part { pub s: Vec<Simple>, pub c: &'static str }
#[derive(Clone)]
pub enum Item { D(String, Vec<(String, String)>), R(Rule) } // args: (source, canonical)
#[derive(Clone)]
pub struct Rule { pub sel: Vec<Vec<Part>>, pub items: Vec<Item> }
pub fn rule_json(r: &Rule) -> Value {
    json!({"k":"r","sel": r.sel.iter().map(|c| c.iter().map(|p| json!({"s": p.s.iter().map(|s| json!({"k":s.k,"n":s.n})).collect::<Vec<_>>(), "c": p.c})).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "items": r.items.iter().map(|i| match i { Item::D(p, a) => json!({"k":"d","p":p,"a":a.iter().map(|x| x.1.clone()).collect::<Vec<_>>()}), Item::R(r) => rule_json(r) }).collect::<Vec<_>>()})
}
#[derive(Clone)]
pub struct El { pub ty: Vec<&'static str>, pub id: String, pub cls: Vec<String>, pub st: Vec<&'static str> }
impl El {
    fn json(&self) -> Value { json!({"ty":self.ty,"id":self.id,"cls":self.cls,"st":self.st}) }
    fn meta(&self, named: bool) -> WidgetMeta {
        let mut st = WidgetStates::empty();
        for s in &self.st { st |= match *s { "focus" => WidgetStates::FOCUS, "hover" => WidgetStates::HOVER, "active" => WidgetStates::ACTIVE, _ => WidgetStates::DISABLED }; }
        WidgetMeta { type_name: self.ty[0], type_names: if named || self.ty.len() > 1 { self.ty.clone() } else { vec![] }, id: if self.id.is_empty() { None } else { Some(self.id.clone()) }, classes: self.cls.clone(), states: st }
    }
}
pub struct Vocab { pub types: Vec<&'static str>, pub ids: Vec<&'static str>, pub classes: Vec<&'static str>, pub states: Vec<&'static str> }
fn s(k: &'static str, n: &str) -> Simple { Simple { k, n: n.into() } }

pub fn compound(r: &mut Rng, v: &Vocab, e: Option<&El>) -> Vec<Simple> {
    let mut out = vec![];
    let near = r.chance(9, 10);
    let e = e.filter(|_| near);
    match r.below(6) { 0 => out.push(s("any", "*")), 1 | 2 | 3 => out.push(s("type", match e { Some(e) => *r.pick(&e.ty), None => *r.pick(&v.types) })), _ => {} }
    let n = r.range(if out.is_empty() { 1 } else { 0 }, 2);
    for _ in 0..n {
        match r.below(9) {
            0 | 1 => { let id = e.map(|e| e.id.clone()).filter(|i| !i.is_empty()).unwrap_or_else(|| r.pick(&v.ids).to_string()); out.push(s("id", &id)) }
            2..=5 => { let c = match e { Some(e) if !e.cls.is_empty() && r.chance(9, 10) => r.pick(&e.cls).clone(), _ => r.pick(&v.classes).to_string() }; out.push(s("class", &c)) }
            6 | 7 => { let c = match e { Some(e) if !e.st.is_empty() && r.chance(4, 5) => *r.pick(&e.st), _ => *r.pick(&v.states) }; out.push(s("state", c)) }
            _ => { let d = *r.pick(&["dark", "light"]); out.push(s("theme", d)) }
        }
    }
    out
}
/// A complex selector that matches (or nearly matches) chain[0] within the chain.
pub fn complex(r: &mut Rng, v: &Vocab, chain: &[El]) -> Vec<Part> {
    let mut parts = vec![Part { s: compound(r, v, chain.first()), c: "none" }];
    let mut i = 0;
    while parts.len() < 4 && r.chance(1, 2) {
        let child = r.chance(1, 3);
        let j = if child { i + 1 } else { i + 1 + r.below(3) };
        parts.insert(0, Part { s: compound(r, v, chain.get(j)), c: if child { "child" } else { "desc" } });
        i = j;
    }
    parts
}

// ---------- declarations ----------
const COLOURS: [(&str, &str); 26] = [
    ("red", "255,0,0,1"), ("blue", "0,0,255,1"), ("green", "0,128,0,1"), ("white", "255,255,255,1"), ("#0f0", "0,255,0,1"), ("#0F0f", "0,255,0,1"), ("#102030", "16,32,48,1"),
    ("#a0b0c0FF", "160,176,192,1"), ("#10203000", "16,32,48,0"), ("rgb(1,2,3)", "1,2,3,1"), ("rgb( 1, 2, 3 )", "1,2,3,1"), ("rgba(9,8,7,0.5)", "9,8,7,0.5"), ("transparent", "0,0,0,0"), ("red 40%", "255,0,0,0.4"), ("#102030  50%", "16,32,48,0.5"),
    ("rgb(1,2,3) 25%", "1,2,3,0.25"), ("#ff000080 50%", "255,0,0,0.5"), ("rgba(9,8,7,0.25) 12.5%", "9,8,7,0.125"), ("rgba(9,8,7,0.25) 75%", "9,8,7,0.75"), ("auto", "auto,1"), ("auto 50%", "auto,0.5"), ("$primary", "$primary"), ("$accent", "$accent"), ("$deep-blue-hover", "$deep-blue-hover"), ("$primary 40%", "$primary 40%"), ("$primary 75%", "$primary 75%"),
];
const KINDS: [&str; 17] = ["none", "hidden", "ascii", "blank", "block", "dashed", "double", "heavy", "hkey", "inner", "outer", "panel", "round", "solid", "tall", "thick", "vkey"];
const ENUMS: [(&str, &[&str]); 22] = [
    ("scrollbar-gutter", &["auto", "stable"]), ("scrollbar-visibility", &["visible", "hidden"]), ("box-sizing", &["content-box", "border-box"]), ("display", &["block", "none"]),
    ("visibility", &["visible", "hidden"]), ("position", &["relative", "absolute"]), ("overflow-x", &["hidden", "auto", "scroll"]), ("overflow-y", &["hidden", "auto", "scroll"]),
    ("layout", &["vertical", "horizontal", "grid"]), ("dock", &["top", "bottom", "left", "right"]), ("text-align", &["left", "center", "right", "justify", "start", "end"]),
    ("text-overflow", &["clip", "fold", "ellipsis"]), ("text-wrap", &["wrap", "nowrap"]), ("content-align-horizontal", &["left", "center", "right"]), ("content-align-vertical", &["top", "middle", "bottom"]),
    ("align-horizontal", &["left", "center", "right"]), ("align-vertical", &["top", "middle", "bottom"]), ("border-title-align", &["left", "center", "right"]), ("border-subtitle-align", &["left", "center", "right"]),
    ("overflow", &["hidden", "auto", "scroll"]), ("content-align", &[]), ("align", &[]),
];
const FAMILIES: [&[&str]; 24] = [
    &["margin", "margin-top", "margin-left"], &["margin", "margin-right", "margin-bottom"], &["padding", "padding-top", "padding-right"], &["padding", "padding-bottom", "padding-left"],
    &["border", "border-top", "border-right"], &["border", "border-bottom", "border-left"], &["outline", "outline-top", "outline-left"], &["outline", "outline-right", "outline-bottom"],
    &["overflow", "overflow-x", "overflow-y"], &["content-align", "content-align-horizontal", "content-align-vertical"], &["align", "align-horizontal", "align-vertical"],
    &["offset", "offset-x", "offset-y"], &["grid-size", "grid-columns", "grid-rows", "grid-gutter", "column-span", "row-span"], &["scrollbar-size", "scrollbar-size-horizontal", "scrollbar-size-vertical"],
    &["text-style", "link-style", "link-style-hover", "border-title-style", "border-subtitle-style"], &["color", "background", "tint", "background-tint"],
    &["width", "min-width", "max-width"], &["height", "min-height", "max-height"], &["display", "visibility", "opacity", "position", "box-sizing", "dock"],
    &["layout", "layers", "layer", "hatch", "keyline"], &["text-align", "text-overflow", "text-wrap", "line-pad", "text-opacity"],
    &["scrollbar-color", "scrollbar-color-hover", "scrollbar-color-active", "scrollbar-background", "scrollbar-background-hover", "scrollbar-background-active", "scrollbar-corner-color", "scrollbar-gutter", "scrollbar-visibility"],
    &["link-color", "link-color-hover", "link-background", "link-background-hover"],
    &["border-title-align", "border-subtitle-align", "border-title-color", "border-subtitle-color", "border-title-background", "border-subtitle-background"],
];
type A = (String, String);
fn same(x: &str) -> A { (x.into(), x.into()) }
fn scal(r: &mut Rng, auto: bool) -> A {
    if auto && r.chance(1, 5) { return same("auto"); }
    let n = *r.pick(&["0", "1", "2", "3", "10", "25", "1.5", "-1", "-2"]);
    let u = *r.pick(&["", "", "", "%", "w", "h", "vw", "vh", "fr"]);
    same(&format!("{n}{u}"))
}
/// r, g, b and opacity in quarters, for colours whose opacity is a multiple of a quarter
fn number(c: &str) -> Option<Vec<i64>> {
    let p: Vec<&str> = c.split(',').collect();
    if p.len() != 4 { return None; }
    let a = match p[3] { "0" => 0, "0.25" => 1, "0.5" => 2, "0.75" => 3, "1" => 4, _ => return None };
    Some(vec![p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?, a])
}
pub fn numbers() -> Value {
    let mut m = serde_json::Map::new();
    for c in COLOURS.iter().map(|c| c.1).chain(["10,1,2,1", "20,1,2,1", "10,3,4,0.5", "20,3,4,0.5", "1,2,3,1", "200,100,50,1"]) { if let Some(n) = number(c) { m.insert(c.into(), json!(n)); } }
    Value::Object(m)
}
fn col(r: &mut Rng, opaque: bool) -> A {
    loop { let c = r.pick(&COLOURS); if !opaque || number(c.1).is_some() || matches!(c.1, "$primary" | "$deep-blue-hover") { return (c.0.into(), c.1.into()); } }
}
fn en(r: &mut Rng, p: &str) -> A { let v = *r.pick(ENUMS.iter().find(|e| e.0 == p).unwrap().1); (v.into(), v.replace('-', "")) }
pub fn decl(r: &mut Rng, p: &str, opaque: bool) -> Item {
    let num = |r: &mut Rng| same(&r.range(0, 5).to_string());
    let a: Vec<A> = match p {
        "margin" | "padding" => { let n = *r.pick(&[1, 2, 4]); (0..n).map(|_| scal(r, false)).collect() }
        "overflow" => (0..r.range(1, 2)).map(|_| en(r, p)).collect(),
        "content-align" | "align" => vec![en(r, "align-horizontal"), en(r, "align-vertical")],
        "offset" => vec![scal(r, false), scal(r, false)],
        "grid-size" | "scrollbar-size" => (0..r.range(1, 2)).map(|_| num(r)).collect(),
        "grid-gutter" => (0..r.range(1, 2)).map(|_| scal(r, false)).collect(),
        "grid-columns" | "grid-rows" => (0..r.range(1, 4)).map(|_| scal(r, true)).collect(),
        "column-span" | "row-span" | "line-pad" | "scrollbar-size-horizontal" | "scrollbar-size-vertical" => vec![num(r)],
        "layers" => (0..r.range(1, 3)).map(|_| same(r.pick(&["base", "over", "x-1", "top"]))).collect(),
        "layer" => vec![same(r.pick(&["base", "over", "x-1", "top"]))],
        "opacity" | "text-opacity" => { let (a, b) = *r.pick(&[("0", "0"), ("50%", "0.5"), ("0.25", "0.25"), ("100%", "1"), ("1", "1"), ("150%", "1"), ("-1", "0"), ("2", "1")]); vec![(a.into(), b.into())] }
        "hatch" => {
            let (a, b) = *r.pick(&[("left", "left"), ("right", "right"), ("cross", "cross"), ("horizontal", "horizontal"), ("vertical", "vertical"), ("\"+\"", "+"), ("'é'", "Ue9")]);
            let c = col(r, opaque);
            vec![(a.into(), b.into()), c, (String::new(), "1".into())]
        }
        "keyline" => if r.chance(1, 4) { vec![("none".into(), "none".into()), (String::new(), "0,0,0,0".into())] } else { vec![same(r.pick(&["thin", "heavy", "double"])), col(r, opaque)] },
        "text-style" | "link-style" | "link-style-hover" | "border-title-style" | "border-subtitle-style" => (0..r.range(1, 3)).map(|_| same(r.pick(&["none", "bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline"]))).collect(),
        _ if p.starts_with("border-title-a") || p.starts_with("border-subtitle-a") => vec![en(r, p)],
        "color" => vec![col(r, false)],
        _ if p.contains("color") || p.contains("background") || p == "tint" => vec![col(r, opaque)],
        _ if p.starts_with("border") || p.starts_with("outline") => {
            let k = *r.pick(&KINDS);
            let k = (k.to_string(), if k == "hidden" { "none".to_string() } else { k.to_string() });
            if r.chance(1, 4) { vec![k] } else { vec![k, col(r, opaque)] }
        }
        _ if ENUMS.iter().any(|e| e.0 == p) => vec![en(r, p)],
        "foo" | "-x-unknown" => vec![same(r.pick(&["bar", "1 2 3", "#fff, url(x)", "a:b"]))],
        _ => vec![scal(r, p.contains("width") || p.contains("height"))],
    };
    Item::D(p.into(), a)
}
pub fn palette(r: &mut Rng) -> Vec<&'static str> {
    let mut v = vec![];
    for _ in 0..r.range(1, 3) { v.extend_from_slice(*r.pick(&FAMILIES)); }
    v
}
pub fn rule(r: &mut Rng, v: &Vocab, chain: &[El], pal: &[&'static str], nest: usize, opaque: bool) -> Rule {
    let sel = (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| complex(r, v, chain)).collect();
    let mut items: Vec<Item> = vec![];
    for _ in 0..r.range(if nest > 0 { 0 } else { 1 }, 4) { let p = *r.pick(pal); items.push(decl(r, p, opaque)); }
    if nest > 0 {
        for _ in 0..r.range(0, 2) {
            let mut sub = rule(r, v, chain, pal, nest - 1, opaque);
            for c in sub.sel.iter_mut() {
                match r.below(4) {
                    0 => { c.truncate(1); c[0].c = "none"; c[0].s.retain(|x| x.k != "type" && x.k != "any"); c[0].s.insert(0, s("parent", "&")); }
                    1 => { let k = c.len(); let mut q = c.split_off(k - 1); q.insert(0, Part { s: vec![s("parent", "&")], c: if r.chance(1, 2) { "child" } else { "desc" } }); *c = q; }
                    2 => { c[0].s.retain(|x| x.k != "type" && x.k != "any"); c[0].s.insert(0, s("parent", "&")); }
                    _ => {}
                }
            }
            let at = r.below(items.len() + 1);
            items.insert(at, Item::R(sub));
        }
        if r.chance(1, 4) { let at = r.below(items.len() + 1); let p = *r.pick(&["foo", "-x-unknown"]); items.insert(at, decl(r, p, opaque)); }
    }
    Rule { sel, items }
}

// ---------- printing ----------
pub struct Pr<'a> { pub r: &'a mut Rng, pub fancy: bool, pub vars: Vec<(String, String)>, pub o: String }
impl Pr<'_> {
    fn ws(&mut self) { if self.fancy { for _ in 0..self.r.below(3) { let x = *self.r.pick(&[" ", " ", "\n", "\t", "\r\n", "/* a: b; { */", "/**/", "// c } $x: 1;\n", "/* $primary: red;\n { */"]); self.o.push_str(x); } } }
    fn ws1(&mut self) { let x = if self.fancy { *self.r.pick(&[" ", "  ", "\n", "\t", "/* y */ ", " // z\n"]) } else { " " }; self.o.push_str(x); }
    fn p(&mut self, x: &str) { self.o.push_str(x); }
    fn complex(&mut self, c: &[Part]) {
        for p in c {
            for x in &p.s {
                let t = match x.k { "class" => format!(".{}", x.n), "id" => format!("#{}", x.n), "state" | "theme" => format!(":{}", x.n), _ => x.n.clone() };
                self.p(&t);
            }
            match p.c { "child" => { self.ws(); self.p(">"); self.ws(); } "desc" => self.ws1(), _ => {} }
        }
    }
    fn value(&mut self, p: &str, a: &[A]) {
        let mut a: Vec<&str> = a.iter().map(|x| x.0.as_str()).filter(|x| !x.is_empty()).collect();
        if a.len() == 2 && !p.ends_with("style") && (p.starts_with("border") || p.starts_with("outline")) && !a[1].contains('%') && self.fancy && self.r.chance(1, 4) { a.swap(0, 1); }
        if self.fancy && self.r.chance(1, 8) { let v = self.var(&a.join(" ")); self.p(&v); return; }
        for (i, x) in a.iter().enumerate() {
            if i > 0 { self.ws1(); }
            let t = if self.fancy && self.r.chance(1, 5) { self.var(x) } else { x.to_string() };
            self.p(&t);
        }
    }
    fn var(&mut self, val: &str) -> String {
        let n = format!("{}{}", *self.r.pick(&["v", "v-a", "my_v", "v1-"]), self.vars.len());
        // sometimes through another variable
        let val = if self.r.chance(1, 4) { let m = format!("{n}-base"); self.vars.push((m.clone(), val.into())); format!("${m}") } else { val.to_string() };
        self.vars.push((n.clone(), val));
        format!("${n}")
    }
    fn rule(&mut self, r: &Rule) {
        self.ws();
        for (i, c) in r.sel.iter().enumerate() { if i > 0 { self.ws(); self.p(","); self.ws(); } self.complex(c); }
        self.ws(); self.p("{"); self.ws();
        for (i, it) in r.items.iter().enumerate() {
            match it {
                Item::D(p, a) => {
                    self.p(p); self.ws(); self.p(":"); self.ws(); self.value(p, a); self.ws();
                    if !(self.fancy && i + 1 == r.items.len() && self.r.chance(1, 3)) { self.p(";"); } else if !p.contains('-') && (p == "foo") { }
                }
                Item::R(x) => self.rule(x),
            }
            self.ws();
        }
        self.p("}"); self.ws();
    }
}
pub fn print(r: &mut Rng, rules: &[Rule], fancy: bool) -> String {
    let mut p = Pr { r, fancy, vars: vec![], o: String::new() };
    for x in rules { p.rule(x); if !fancy { p.p("\n"); } }
    let mut head = String::new();
    for (n, v) in p.vars.clone() {
        let tail = *p.r.pick(&["", "", " ", " // note", " /* n */"]);
        let sp = *p.r.pick(&["", " ", "  "]);
        head.push_str(&format!("{sp}${n}:{sp}{v};{tail}\n"));
    }
    head + &p.o
}

// ---------- theme ----------
pub fn themes() -> [Theme; 2] {
    let mk = |name: &str, dark: bool, k: u8| {
        let mut t = Theme::new(name, dark);
        t.colors.insert("primary".into(), RgbaColor::rgb(k, 1, 2));
        t.colors.insert("accent".into(), RgbaColor::auto(0.87));
        t.colors.insert("deep-blue-hover".into(), RgbaColor::rgba(k, 3, 4, 0.5));
        t.colors.insert("deep".into(), RgbaColor::rgb(99, 99, 99));
        t.colors.insert("foreground".into(), RgbaColor::rgb(k, 7, 7));
        t
    };
    [mk("one", false, 10), mk("two", true, 20)]
}
pub fn theme_json() -> Value {
    let tv = |k: u8| json!({"$primary": format!("{k},1,2,1"), "$accent": "auto,0.87", "$deep-blue-hover": format!("{k},3,4,0.5"), "$primary 40%": format!("{k},1,2,0.4"), "$primary 75%": format!("{k},1,2,0.75")});
    json!([tv(10), tv(20)])
}

pub fn vocab() -> Vocab { Vocab { types: vec!["A", "B", "Cc"], ids: vec!["a", "b", "the-id"], classes: vec!["x", "y", "k-1", "-on"], states: vec!["focus", "hover", "active", "disabled", "visited"] } }
fn element(r: &mut Rng, v: &Vocab) -> El {
    let mut ty = vec![*r.pick(&v.types)];
    if r.chance(1, 4) { let t = *r.pick(&v.types); if t != ty[0] { ty.push(t); } }
    let mut cls: Vec<String> = vec![]; let mut st = vec![];
    for c in &v.classes { if r.chance(2, 5) { cls.push(c.to_string()); } }
    for c in &v.states { if *c != "visited" && r.chance(1, 3) { st.push(*c); } }
    let id = if r.chance(1, 2) { r.pick(&v.ids).to_string() } else { String::new() };
    El { ty, id, cls, st }
}

pub fn run(a: &Args, out: &mut Out, syntax: bool) {
    let mut r = Rng::new(a.seed ^ 0xC55 ^ ((syntax as u64) << 33));
    let v = vocab();
    let th = themes();
    let n = if a.thorough { 16000 } else { 3000 };
    for case in 0..n {
        let chain: Vec<El> = (0..r.range(1, 5)).map(|_| element(&mut r, &v)).collect();
        let pal = palette(&mut r);
        let mut rules = vec![];
        for _ in 0..r.range(1, if syntax { 4 } else { 7 }) {
            let k = r.below(chain.len().max(1)).min(1);
            let nest = if syntax { r.below(4) } else { 0 };
            rules.push(rule(&mut r, &v, &chain[k.min(chain.len() - 1)..], &pal, nest, false));
        }
        let fancy = syntax && r.chance(4, 5);
        let mut text = print(&mut r, &rules, fancy);
        let mut steps = vec![];
        if syntax && case % 4 == 3 {
            // broken or arbitrary text: an error or a sheet, never a crash
            let kind = r.below(9);
            let want = match kind {
                0 => { text.push_str("\nA { display: sideways; }"); 0 }
                1 => { text.push_str("\nA { width: wide; }"); 0 }
                2 => { text.push_str("\n}"); 0 }
                3 => { text.push_str("\nA { color: red;"); 0 }
                4 => { text.push_str("\n{ color: red; }"); 0 }
                5 => { text.push_str("\nA { color red; }"); 0 }
                6 => { text.push_str("\nA, { color: red; }"); 0 }
                _ => {
                    let soup: Vec<char> = "{}{};:;.#&*>$,()[]%/\\\"'!-_ \n\t019aAzéß世🙂\u{301}".chars().collect();
                    let mut cs: Vec<char> = if r.chance(1, 3) { vec![] } else { text.chars().collect() };
                    let k = if cs.is_empty() { r.range(1, 60) } else { r.range(1, 6) };
                    for _ in 0..k {
                        let at = r.below(cs.len() + 1);
                        match r.below(4) { 0 if at < cs.len() => { cs.remove(at); } 1 if at < cs.len() => { let c = cs[at]; cs.insert(r.below(cs.len()), c); } 2 => { cs.truncate(at.max(1)); } _ => cs.insert(at.min(cs.len()), *r.pick(&soup)) }
                    }
                    for w in ["#", "rgb(", "hsl(", "#1", "auto", "$", "1%", "\"", ".5"] { if r.chance(1, 12) { let at = r.below(cs.len() + 1); for (i, c) in w.chars().enumerate() { cs.insert(at + i, c); } } }
                    text = cs.into_iter().collect();
                    2
                }
            };
            let mut e = json!({"op": if want == 2 {"soup"} else {"bad"}, "src": text});
            let ok = guard(|| { let p = parse_stylesheet(&text); e["ok"] = json!(p.is_ok() as u8); if let Ok(sh) = p { let m: Vec<WidgetMeta> = chain.iter().map(|x| x.meta(true)).collect(); let _ = compute_style(&m[0], &m[1..], &sh, &th[0]); } });
            e["panic"] = json!(ok.is_none() as u8);
            steps.push(e);
        } else {
            let mut e = json!({"op":"parse","src":text});
            let sheet = guard(|| { let p = parse_stylesheet(&text); e["ok"] = json!(p.is_ok() as u8); if let Err(x) = &p { e["err"] = json!(format!("{x:?}").chars().take(200).collect::<String>()); } p.ok() });
            e["panic"] = json!(sheet.is_none() as u8);
            steps.push(e);
            if let Some(Some(sh)) = sheet {
                for _ in 0..r.range(2, 5) {
                    let mut ch = chain.clone();
                    if r.chance(1, 2) { let i = r.below(ch.len()); ch[i] = element(&mut r, &v); }
                    if r.chance(1, 5) { ch.remove(0); if ch.is_empty() { ch.push(element(&mut r, &v)); } }
                    let d = r.below(2);
                    let named = r.chance(1, 2);
                    let mut e = json!({"op":"style","chain":ch.iter().map(|x| x.json()).collect::<Vec<_>>(),"dark":d});
                    let m: Vec<WidgetMeta> = ch.iter().map(|x| x.meta(named)).collect();
                    let ok = guard(|| { let s = compute_style(&m[0], &m[1..], &sh, &th[d]); e["style"] = json!(observe(&s)); });
                    e["panic"] = json!(ok.is_none() as u8);
                    steps.push(e);
                }
            }
        }
        out.line(&json!({"rules": rules.iter().map(rule_json).collect::<Vec<_>>(), "tv": theme_json(), "steps": steps}));
    }
}
