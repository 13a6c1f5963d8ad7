//! Colour notations, colour arithmetic and theme variables.
use crate::common::*;
use serde_json::{json, Value};
use tcss::types::{ColorSystem, RgbaColor, Theme};

fn show(c: &RgbaColor) -> Value {
    json!({"r":c.r,"g":c.g,"b":c.b,"a":(c.a as f64 * 10000.0).round() as i64,"k":if c.auto { "auto" } else if c.theme_var.is_some() || c.ansi.is_some() { "other" } else { "rgb" }})
}
const NAMES: [&str; 30] = ["black", "white", "grey", "red", "gray", "rebeccapurple", "lightgoldenrodyellow", "cyan", "aqua", "fuchsia", "magenta", "lime", "navy", "teal", "silver", "maroon", "olive", "purple", "orange", "lightslategrey", "darkslategray", "dimgrey", "nocolour", "re", "redd", "dark", "bluee", "gainsboro2", "slate", "whitee"];

fn parse(r: &mut Rng, names: &[String]) -> Value {
    let upper = r.chance(1, 3);
    let case = |s: String| if upper { s.to_uppercase() } else { s };
    let pad = |r: &mut Rng, s: String| if r.chance(1, 4) { format!("  {s} ") } else { s };
    let sp = |r: &mut Rng| if r.chance(1, 3) { " " } else { "" };
    let (mut e, text) = match r.below(9) {
        0 | 1 => { let n = if r.chance(4, 5) { r.pick(names).clone() } else { r.pick(&NAMES).to_string() }; (json!({"kind":"name","name":n}), case(n)) }
        2 | 3 => {
            let k = *r.pick(&[3usize, 4, 6, 8]);
            let d: Vec<u32> = (0..k).map(|_| r.below(16) as u32).collect();
            let s: String = d.iter().map(|x| std::char::from_digit(*x, 16).unwrap()).collect();
            (json!({"kind":"hex","d":d}), format!("#{}", case(s)))
        }
        4 | 5 => {
            let d: Vec<i64> = (0..3).map(|_| if r.chance(1, 12) { *r.pick(&[-1i64, 256, 300, 1000]) } else { *r.pick(&[0i64, 255, 1, 254, 128, 7, 90, 201]) }).collect();
            let a = if r.chance(1, 2) { Some(*r.pick(&[(0i64, "0"), (10000, "1"), (5000, "0.5"), (2500, ".25"), (10000, "1.0"), (3300, "0.33")])) } else { None };
            let f = *r.pick(&["rgb", "rgba"]);
            let t = format!("{f}({}{},{}{},{}{}{})", sp(r), d[0], sp(r), d[1], d[2], sp(r), a.map(|x| format!(",{}", x.1)).unwrap_or_default());
            (json!({"kind":"rgb","d":d,"a":a.map(|x| x.0).unwrap_or(10000)}), case(t))
        }
        6 | 7 => {
            let d = [if r.chance(1, 5) { r.range(-1100, 1500) } else { r.range(0, 360) }, r.range(0, 100), r.range(0, 100)];
            let d = if r.chance(1, 3) { [*r.pick(&[0i64, 60, 120, 180, 240, 300, 360, 59, 61, 200]), *r.pick(&[0i64, 100, 50]), *r.pick(&[0i64, 50, 100, 49, 51])] } else { d };
            let a = if r.chance(1, 2) { Some(*r.pick(&[(0i64, "0"), (10000, "1"), (5000, "0.5")])) } else { None };
            let t = format!("{}({},{}{}%,{}%{})", *r.pick(&["hsl", "hsla"]), d[0], sp(r), d[1], d[2], a.map(|x| format!(", {}", x.1)).unwrap_or_default());
            (json!({"kind":"hsl","d":d,"a":a.map(|x| x.0).unwrap_or(10000)}), case(t))
        }
        _ => match r.below(4) {
            0 => (json!({"kind":"auto"}), case("auto".into())),
            1 => (json!({"kind":"transparent"}), case("transparent".into())),
            _ => (json!({"kind":"bad"}), r.pick(&["", " ", "#", "#1", "#12", "#12345", "#1234567", "#123456789", "#ggg", "#12345g", "#é", "rgb(1,2)", "rgb()", "rgb(1,2,3", "rgb 1,2,3)", "rgb(a,b,c)", "rgb(1.5,2,3)", "hsl(1,2%)", "hsl(x,1%,1%)", "hsl(1,x%,1%)", "rgb(1,2,3,x)", "$", "ré", "123", ")rgb(", "hsl)(", "rgb)1,2,3("]).to_string()),
        },
    };
    let text = pad(r, text);
    let v = guard(|| RgbaColor::parse(&text));
    e["op"] = json!("parse"); e["text"] = json!(text);
    e["panic"] = json!(v.is_none() as u8);
    let v = v.and_then(|x| x.ok());
    e["ok"] = json!(v.is_some() as u8);
    e["v"] = v.map(|c| show(&c)).unwrap_or(json!({"r":0,"g":0,"b":0,"a":0,"k":"none"}));
    e
}
fn some(r: &mut Rng) -> RgbaColor {
    let ch = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&[0u8, 255, 1, 254, 128, 127]) } else { r.below(256) as u8 };
    let (a, b, c) = (ch(r), ch(r), ch(r));
    let grey = r.chance(1, 6);
    RgbaColor::rgba(a, if grey { a } else { b }, if grey { a } else { c }, *r.pick(&[1.0f32, 1.0, 0.5, 0.25, 0.0]))
}
fn calc(r: &mut Rng) -> Value {
    let (c, d) = (some(r), some(r));
    let den = *r.pick(&[16i64, 16, 100]);
    let num = match r.below(8) { 0 => 0, 1 => den, 2 => den + 1, _ => r.range(0, den) };
    let f = num as f32 / den as f32;
    let mut e = json!({"c":show(&c),"d":show(&d),"num":num,"den":den,"alpha":-1});
    let which = r.below(12);
    let res = guard(|| match which {
        0 => { e["op"] = json!("blend"); if num % 2 == 0 { e["alpha"] = json!(7500); Some(c.blend(&d, f, Some(0.75))) } else { Some(c.blend(&d, f, None)) } }
        1 => { e["op"] = json!("tint"); let num = num.min(den); e["num"] = json!(num); Some(c.tint(&d.with_alpha(num as f32 / den as f32))) }
        2 => { e["op"] = json!("over"); let o = c.with_alpha(f); e["c"] = show(&o); Some(o.blend_over(&d)) }
        3 => { e["op"] = json!("toward"); Some(c.blend_toward(&d, num as f64 / den as f64)) }
        4 => { e["op"] = json!("opacity"); Some(c.with_opacity(num as f64 / den as f64)) }
        5 => { e["op"] = json!("inverse"); Some(c.inverse()) }
        6 => { e["op"] = json!("contrast"); e["num"] = json!(5000); Some(c.contrast_text(0.5)) }
        7 => { e["op"] = json!("contrasting"); Some(c.get_contrasting_color(f)) }
        8 | 9 => { e["op"] = json!("lighten"); let k = *r.pick(&[0i64, 3, 5, 8, 10, 15, 20, 30, 50, 100]); let up = k % 2 == 0; e["num"] = json!(if up { k } else { -k }); let a = k as f32 / 100.0; Some(if up { c.lighten(a) } else { c.darken(a) }) }
        10 => {
            let lum = num % 2 == 0;
            e["op"] = json!(if lum { "luminance" } else { "bright" });
            e["lum"] = json!(((if lum { c.luminance() } else { c.perceived_brightness() }) as f64 * 100000.0).round() as i64);
            Some(c.clone())
        }
        _ => {
            e["op"] = json!("fixed");
            let x = match num % 3 { 0 => RgbaColor::auto(0.5), 1 => RgbaColor::ansi(3), _ => RgbaColor::theme_variable("primary") };
            e["same"] = json!((x.lighten(0.2) == x && x.darken(0.2) == x) as u8);
            Some(c.clone())
        }
    });
    e["panic"] = json!(res.is_none() as u8);
    let v = res.flatten();
    e["ok"] = json!(v.is_some() as u8);
    e["v"] = v.map(|c| show(&c)).unwrap_or(json!({"r":0,"g":0,"b":0,"a":0,"k":"none"}));
    if e["op"].is_null() { e["op"] = json!("inverse"); }
    e
}
fn system(r: &mut Rng) -> Value {
    let opaque = |r: &mut Rng| some(r).with_alpha(1.0);
    let dark = r.chance(1, 2);
    let p = opaque(r);
    let mut s = ColorSystem::new(p.clone(), dark);
    let mut j = json!({"primary":show(&p),"dark":dark as u8});
    let mut given = |r: &mut Rng, n: &str| -> Option<RgbaColor> { let c = if r.chance(1, 2) { Some(opaque(r)) } else { None }; j[n] = c.as_ref().map(show).unwrap_or(json!([])); c };
    if let Some(c) = given(r, "secondary") { s = s.with_secondary(c) }
    if let Some(c) = given(r, "warning") { s = s.with_warning(c) }
    if let Some(c) = given(r, "error") { s = s.with_error(c) }
    if let Some(c) = given(r, "success") { s = s.with_success(c) }
    if let Some(c) = given(r, "accent") { s = s.with_accent(c) }
    if let Some(c) = given(r, "foreground") { s = s.with_foreground(c) }
    if let Some(c) = given(r, "background") { s = s.with_background(c) }
    if let Some(c) = given(r, "surface") { s = s.with_surface(c) }
    if let Some(c) = given(r, "panel") { s = s.with_panel(c) }
    if let Some(c) = given(r, "boost") { s = s.with_boost(c) }
    let spread = *r.pick(&[15i64, 15, 10, 20]);
    j["spread"] = json!(spread);
    if spread != 15 { s = s.with_luminosity_spread(spread as f32 / 100.0); }
    let t = guard(|| Theme::from_color_system("t", s));
    let mut vars = serde_json::Map::new();
    if let Some(t) = &t { for (k, v) in &t.colors { vars.insert(k.clone(), show(v)); } }
    json!({"op":"system","sys":j,"vars":vars,"panic":t.is_none() as u8})
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xC0108);
    let spec = include_str!("../../specs/ColourTables.tla");
    let names: Vec<String> = spec.split("Names == [").nth(1).unwrap().split(']').next().unwrap().split("|->").map(|x| x.rsplit(|c: char| !c.is_alphanumeric()).find(|s| !s.is_empty()).unwrap_or("").to_string()).filter(|s| !s.is_empty() && s.chars().all(|c| c.is_alphabetic())).collect();
    // every name once
    let mut steps = vec![];
    for n in &names {
        let v = guard(|| RgbaColor::parse(n));
        let p = v.is_none();
        let v = v.and_then(|x| x.ok());
        steps.push(json!({"op":"parse","kind":"name","name":n,"text":n,"panic":p as u8,"ok":v.is_some() as u8,"v":v.map(|c| show(&c)).unwrap_or(json!({"r":0,"g":0,"b":0,"a":0,"k":"none"}))}));
    }
    out.line(&json!({"steps": steps}));
    // the built-in themes
    let all: Vec<String> = guard(|| Theme::from_color_system("x", ColorSystem::new(RgbaColor::rgb(1, 2, 3), true)).colors.keys().cloned().collect()).unwrap_or_default();
    let mut steps = vec![];
    let th = guard(Theme::standard_themes).unwrap_or_default();
    let mut keys: Vec<&String> = th.keys().collect();
    keys.sort();
    for k in keys {
        let t = &th[k];
        let mut missing: Vec<&String> = all.iter().filter(|n| t.get_color(n).is_none()).collect();
        missing.sort();
        let bg = t.get_color("background").unwrap_or_default();
        if bg.ansi.is_some() { continue; }
        steps.push(json!({"op":"standard","name":k,"missing":missing,"isdark":t.is_dark as u8,"bg":show(&bg),"named":(t.name == *k) as u8,"ok":1,"panic":0}));
    }
    if steps.is_empty() { steps.push(json!({"op":"standard","panic":1})); }
    out.line(&json!({"steps": steps}));
    for _ in 0..if a.thorough { 12000 } else { 1500 } {
        let mut steps = vec![];
        for _ in 0..10 { steps.push(if r.chance(1, 3) { parse(&mut r, &names) } else { calc(&mut r) }); }
        if r.chance(1, 8) { steps.push(system(&mut r)); }
        out.line(&json!({"steps": steps}));
    }
}
