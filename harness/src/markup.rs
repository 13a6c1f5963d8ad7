//! Drives Rich markup through Content: every grapheme's attributes are read back from the laid out lines.
use crate::common::*;
use crate::strip::{clusters, glyph};
use serde_json::{json, Value};
use tcss::types::{link::LinkStyle, RgbaColor, TextOverflow, TextStyle, TextWrap};
use textual::content::{Content, WrappedLine};
use textual::segment::Style;

const NAMES: &[&str] = &["aliceblue","antiquewhite","aqua","aquamarine","azure","beige","bisque","black","blanchedalmond","blue","blueviolet","brown","burlywood","cadetblue","chartreuse","chocolate","coral","cornflowerblue","cornsilk","crimson","cyan","darkblue","darkcyan","darkgoldenrod","darkgray","darkgreen","darkgrey","darkkhaki","darkmagenta","darkolivegreen","darkorange","darkorchid","darkred","darksalmon","darkseagreen","darkslateblue","darkslategray","darkslategrey","darkturquoise","darkviolet","deeppink","deepskyblue","dimgray","dimgrey","dodgerblue","firebrick","floralwhite","forestgreen","fuchsia","gainsboro","ghostwhite","gold","goldenrod","gray","green","greenyellow","grey","honeydew","hotpink","indianred","indigo","ivory","khaki","lavender","lavenderblush","lawngreen","lemonchiffon","lightblue","lightcoral","lightcyan","lightgoldenrodyellow","lightgray","lightgreen","lightgrey","lightpink","lightsalmon","lightseagreen","lightskyblue","lightslategray","lightslategrey","lightsteelblue","lightyellow","lime","limegreen","linen","magenta","maroon","mediumaquamarine","mediumblue","mediumorchid","mediumpurple","mediumseagreen","mediumslateblue","mediumspringgreen","mediumturquoise","mediumvioletred","midnightblue","mintcream","mistyrose","moccasin","navajowhite","navy","oldlace","olive","olivedrab","orange","orangered","orchid","palegoldenrod","palegreen","paleturquoise","palevioletred","papayawhip","peachpuff","peru","pink","plum","powderblue","purple","rebeccapurple","red","rosybrown","royalblue","saddlebrown","salmon","sandybrown","seagreen","seashell","sienna","silver","skyblue","slateblue","slategray","slategrey","snow","springgreen","steelblue","tan","teal","thistle","tomato","turquoise","violet","wheat","white","whitesmoke","yellow","yellowgreen"];
const FLAGS: &[&str] = &["bold", "b", "dim", "d", "italic", "i", "underline", "u", "strike", "s", "strikethrough", "reverse", "r", "blink"];

const ACTIONS: &[&str] = &["app.go(1)", "app.go(2)", "app.go(3)", "app.go(4)", "app.set(a=b, 'c')", "screen.toggle_class(\"x\")"];
const URLS: &[&str] = &["http://x/1", "http://x/2", "http://x/3", "http://x/4", "https://y.z/?q=1&r=a=b#f"];

#[derive(Clone)]
enum Tok {
    T(i64),                                  // a known glyph, -1 newline, -2.. escaped characters
    Open(Vec<(String, Vec<i64>)>, String),   // words, source
    Meta(&'static str, i64, String),
    Close(String, String),
    Bad(String),
}
fn chars(id: i64) -> &'static str {
    match id { -1 => "\n", -2 => "\\[", -3 => "\\]", -4 => "\\\\", -5 => "]", n => glyph(n as u32) }
}
fn src(t: &Tok) -> &str {
    match t { Tok::T(g) => chars(*g), Tok::Open(_, s) | Tok::Meta(_, _, s) | Tok::Close(_, s) | Tok::Bad(s) => s }
}
fn shown(g: i64) -> i64 {
    match g { -2 => -1000 - '[' as i64, -3 | -5 => -1000 - ']' as i64, -4 => -1000 - '\\' as i64, n => n }
}
fn j(t: &Tok) -> Value {
    match t {
        Tok::T(g) => json!({"k": "t", "g": shown(*g)}),
        Tok::Open(w, _) => json!({"k": "open", "words": w.iter().map(|(w, c)| json!({"w": w, "c": c})).collect::<Vec<_>>()}),
        Tok::Meta(k, v, _) => json!({"k": "meta", "key": k, "val": v}),
        Tok::Close(n, _) => json!({"k": "close", "name": n}),
        Tok::Bad(_) => json!({"k": "bad"}),
    }
}
fn rgb(c: &Option<RgbaColor>) -> Value {
    match c { None => json!([]), Some(c) => json!([c.r, c.g, c.b]) }
}
fn look(g: i64, st: Option<&Style>, click: Option<&str>, link: Option<&str>) -> Value {
    let d = Style::default();
    let s = st.unwrap_or(&d);
    let mut fl = vec![];
    for (on, n) in [(s.bold, "bold"), (s.dim, "dim"), (s.italic, "italic"), (s.underline, "underline"), (s.strike, "strike"), (s.reverse, "reverse")] { if on { fl.push(n) } }
    json!({"g": g, "fg": rgb(&s.fg), "bg": rgb(&s.bg), "fl": fl,
        "click": click.map(|m| ACTIONS.iter().position(|a| *a == m).map_or(-1, |i| i as i64 + 1)).unwrap_or(0),
        "link": link.map(|m| URLS.iter().position(|a| *a == m).map_or(-1, |i| i as i64 + 1)).unwrap_or(0)})
}
fn read(lines: &[WrappedLine]) -> Vec<Value> {
    let mut out = vec![];
    for (i, l) in lines.iter().enumerate() {
        for s in l.strip.segments() {
            for (g, _) in clusters(s.text()) { out.push(look(g, s.style(), s.get_meta("@click"), s.get_meta("@link"))); }
        }
        if l.line_end && i + 1 < lines.len() { out.push(look(-1, None, None, None)); }
    }
    out
}
#[derive(Clone, Default)]
struct Base { fg: Option<[u8; 3]>, bg: Option<[u8; 3]>, links: Option<LinkStyle>, hov: i64 }
fn col(r: &mut Rng) -> Option<RgbaColor> {
    if r.chance(1, 3) { return None; }
    let a = *r.pick(&[0.0, 0.25, 0.5, 0.75, 1.0, 1.0, 1.0]);
    if r.chance(1, 4) { return Some(RgbaColor::auto(a)); }
    let mut k = || *r.pick(&[0u8, 40, 100, 200, 255]);
    Some(RgbaColor::rgba(k(), k(), k(), a))
}
fn flags(r: &mut Rng) -> TextStyle {
    let mut on = || r.chance(1, 4);
    TextStyle { bold: on(), dim: on(), italic: on(), underline: on(), reverse: on(), strike: on(), ..TextStyle::default() }
}
fn names(t: &TextStyle) -> Vec<&'static str> {
    [(t.bold, "bold"), (t.dim, "dim"), (t.italic, "italic"), (t.underline, "underline"), (t.strike, "strike"), (t.reverse, "reverse")].into_iter().filter(|x| x.0).map(|x| x.1).collect()
}
fn jcol(c: &Option<RgbaColor>) -> Value {
    match c { None => json!([]), Some(c) => json!([c.r, c.g, c.b, (c.a * 4.0) as i64, c.auto as i64]) }
}
fn jlinks(l: &Option<LinkStyle>) -> Value {
    match l { None => json!([]), Some(l) => json!([{"bg": jcol(&l.background), "fg": jcol(&l.color), "bgh": jcol(&l.background_hover), "fgh": jcol(&l.color_hover), "st": names(&l.style), "sth": names(&l.style_hover)}]) }
}
fn opaque(c: [u8; 3]) -> RgbaColor { RgbaColor::rgb(c[0], c[1], c[2]) }
fn case(toks: &[Tok], base: &Base, w: usize) -> Value {
    let s: String = toks.iter().map(src).collect();
    let r = guard(|| {
        let c = Content::from_markup(&s).ok()?;
        let c = if base.fg.is_some() || base.bg.is_some() { c.with_style(Style { fg: base.fg.map(opaque), bg: base.bg.map(opaque), ..Style::default() }) } else { c };
        let c = match &base.links { Some(l) => c.with_link_style(l.clone()), None => c };
        let c = if base.hov > 0 { c.with_hovered_action(Some(ACTIONS[base.hov as usize - 1].to_string())) } else { c };
        Some(if w == 0 { read(&c.lines().into_iter().map(|strip| WrappedLine { strip, line_end: true }).collect::<Vec<_>>()) }
             else { read(&c.wrap_with_line_end_overflow(w, TextOverflow::Fold, TextWrap::NoWrap)) })
    });
    let mut v = json!({"op": if w == 0 { "lines" } else { "fold" }, "panic": 0, "src": s, "toks": toks.iter().map(j).collect::<Vec<_>>(), "base": {"fg": base.fg.map(|b| b.to_vec()).unwrap_or_default(), "bg": base.bg.map(|b| b.to_vec()).unwrap_or_default()}, "ls": jlinks(&base.links), "hov": base.hov, "w": w, "err": 0});
    match r {
        None => v["panic"] = json!(1),
        Some(None) => v["err"] = json!(1),
        Some(Some(o)) => v["out"] = json!(o),
    }
    v
}
/// the parsed markup itself: its segments, and the style at every offset
fn parsed(toks: &[Tok]) -> Value {
    let s: String = toks.iter().map(src).collect();
    let look = |g: i64, st: &rich::Style, meta: &std::collections::HashMap<String, String>| {
        let c = |c: &Option<rich::Color>| match c { None => json!([]), Some(c) => { let (r, g, b) = c.to_rgb(); json!([r, g, b]) } };
        let t = &st.text;
        let fl: Vec<&str> = [(t.bold, "bold"), (t.dim, "dim"), (t.italic, "italic"), (t.underline, "underline"), (t.strike, "strike"), (t.reverse, "reverse"), (t.blink, "blink")].into_iter().filter(|x| x.0).map(|x| x.1).collect();
        let mut v = look(if g == -1010 { -1 } else { g }, None, meta.get("@click").map(|s| s.as_str()), meta.get("@link").map(|s| s.as_str()));
        v["fg"] = c(&st.fg); v["bg"] = c(&st.bg); v["fl"] = json!(fl);
        v
    };
    let r = guard(|| {
        let m = rich::ParsedMarkup::parse(&s).ok()?;
        let mut out = vec![];
        let mut at = vec![];
        let mut pos = 0;
        for (text, style, meta) in m.segments() {
            for (g, _) in clusters(text) { out.push(look(g, &style, &meta)); }
            // the same through the lookups by offset
            let mut i = pos;
            for (g, _) in clusters(text) {
                let mut mm = std::collections::HashMap::new();
                for s in &m.spans_at(i) { for k in ["@click", "@link"] { if let Some(v) = s.get_meta(k) { mm.insert(k.to_string(), v.to_string()); } } }
                at.push(look(g, &m.style_at(i), &mm));
                i += if g >= 0 { glyph(g as u32).len() } else { 1 };
            }
            pos += text.len();
        }
        Some((out, at, pos == m.len()))
    });
    let mut v = json!({"op": "rich", "panic": 0, "src": s, "toks": toks.iter().map(j).collect::<Vec<_>>(), "base": {"fg": [], "bg": []}, "ls": [], "hov": 0, "w": 0, "err": 0});
    match r {
        None => v["panic"] = json!(1),
        Some(None) => v["err"] = json!(1),
        Some(Some((o, at, whole))) => { v["out"] = json!(o); v["at"] = json!(at); v["whole"] = json!(whole as u8); }
    }
    v
}
fn colour(r: &mut Rng) -> (String, Vec<i64>) {
    match r.below(6) {
        0 | 1 => (r.pick(NAMES).to_string(), vec![]),
        2 => (r.pick(&["red", "blue", "green"]).to_string(), vec![]),
        3 => { let c = [r.below(16) as i64, r.below(16) as i64, r.below(16) as i64]; (format!("#{:x}{:x}{:x}", c[0], c[1], c[2]), c.iter().map(|x| x * 17).collect()) }
        4 => { let c = [r.below(256) as i64, r.below(256) as i64, r.below(256) as i64]; (format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]), c.to_vec()) }
        _ => { let c = [r.below(256) as i64, r.below(256) as i64, r.below(256) as i64]; (format!("rgb({},{},{})", c[0], c[1], c[2]), c.to_vec()) }
    }
}
fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(8) { 0 => s.to_uppercase(), 1 => { let mut c = s.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() } _ => s.to_string() }
}
fn open(r: &mut Rng) -> Tok {
    let mut words: Vec<(String, Vec<i64>)> = vec![];
    let plain = |s: &str| (s.to_string(), vec![]);
    if r.chance(2, 3) { words.push(plain(r.pick(FLAGS))); }
    if r.chance(1, 4) { words.push(plain(r.pick(FLAGS))); }
    if r.chance(1, 2) { words.push(colour(r)); }
    if r.chance(1, 3) { words.push(plain("on")); words.push(colour(r)); }
    if r.chance(1, 8) { words.push(plain(r.pick(FLAGS))); }
    if words.is_empty() { words.push(colour(r)); }
    let gap = if r.chance(1, 8) { "  " } else { " " };
    let text: Vec<String> = words.iter().map(|w| if w.0.starts_with("rgb") { w.0.clone() } else { recase(r, &w.0) }).collect();
    Tok::Open(words, format!("[{}]", text.join(gap)))
}
fn click(r: &mut Rng) -> Tok {
    let v = r.below(ACTIONS.len());
    let a = ACTIONS[v];
    Tok::Meta("click", v as i64 + 1, match r.below(8) { 0 => format!("[@click = {a}]"), 1 => format!("[@click= {a} ]"), 2 => format!("[ @click ={a}]"), _ => format!("[@click={a}]") })
}
fn bad(r: &mut Rng) -> Tok {
    Tok::Bad(r.pick(&["[]", "[nosuch]", "[bold nosuch]", "[on]", "[red on]", "[on nosuch]", "\\q", "\\ ", "[#12]", "[#12345g]", "[#\u{e9}1]", "[#\u{65e5}]", "[#\u{e9}\u{e9}\u{e9}]", "[rgb(1,2)]", "[rgb(1,2,300)]", "[rgb(1,2,3]", "[a[b]]", "[ ]", "[on #\u{65e5}\u{672c}]"]).to_string())
}
pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x14a7);
    // every colour name
    for ch in NAMES.chunks(10) {
        out.line(&json!({"steps": ch.iter().map(|n| {
            let w = vec![(n.to_string(), vec![])];
            let on = vec![("on".to_string(), vec![]), (n.to_string(), vec![])];
            case(&[Tok::Open(w, format!("[{n}]")), Tok::T(1), Tok::Open(on, format!("[on {n}]")), Tok::T(2)], &Base::default(), 0)
        }).collect::<Vec<_>>()}));
    }
    let n = if a.thorough { 40000 } else { 6000 };
    for _ in 0..n {
        let mut steps = vec![];
        for _ in 0..3 {
            let len = r.range(0, 16);
            let mut toks: Vec<Tok> = vec![];
            let mut names: Vec<String> = vec![];
            for _ in 0..len {
                toks.push(match r.below(20) {
                    0..=8 => Tok::T(*r.pick(&[0, 1, 2, 3, 4, 6, 100, 103, -1, -2, -3, -4, -5])),
                    9..=12 => { let o = open(&mut r); if let Tok::Open(w, _) = &o { names.extend(w.iter().map(|w| w.0.clone())); } o }
                    13 => {
                        if r.chance(1, 6) { names.push("@note".into()); Tok::Meta("note", 1, r.pick(&["[@note=1]", "[@note]", "[@note=]", "[ @note ]"]).to_string()) }
                        else { names.push("@click".into()); click(&mut r) }
                    }
                    14 => {
                        names.push("link".into());
                        let v = r.below(URLS.len());
                        let u = URLS[v];
                        Tok::Meta("link", v as i64 + 1, match r.below(6) { 0 | 1 => format!("[link={u}]"), 2 => format!("[link='{u}']"), 3 => format!("[link {u}]"), 4 => format!("[ link= {u} ]"), _ => format!("[link=\"{u}\"]") })
                    }
                    15..=17 => Tok::Close(String::new(), r.pick(&["[/]", "[/]", "[/ ]"]).to_string()),
                    _ => {
                        let name = if names.is_empty() || r.chance(1, 6) { r.pick(&["bold", "b", "re", "re", "link", "on", "nosuch", "#1"]).to_string() } else { r.pick(&names).clone() };
                        let s = if name.starts_with("rgb") { name.clone() } else { recase(&mut r, &name) };
                        Tok::Close(name, format!("[/{s}]"))
                    }
                });
            }
            if r.chance(1, 12) {
                let at = r.below(toks.len() + 1);
                toks.insert(at, bad(&mut r));
            } else if r.chance(1, 20) {
                toks.push(Tok::Bad(r.pick(&["[", "[bold", "\\", "[/", "[bold \\]"]).to_string()));
            }
            let mut base = Base { fg: if r.chance(1, 3) { Some([1, 2, 3]) } else { None }, ..Base::default() };
            if r.chance(1, 3) {
                base.bg = if r.chance(1, 2) { Some(*r.pick(&[[0, 0, 0], [240, 250, 200], [30, 60, 200]])) } else { None };
                base.links = Some(LinkStyle { color: col(&mut r), background: col(&mut r), color_hover: col(&mut r), background_hover: col(&mut r), style: flags(&mut r), style_hover: flags(&mut r) });
                base.hov = r.range(0, ACTIONS.len() as i64);
                if !toks.iter().any(|t| matches!(t, Tok::Meta("click", ..))) {
                    let at = r.below(toks.len().max(1));
                    let c = click(&mut r);
                    toks.insert(at, c);
                }
            }
            let w = if r.chance(1, 2) { 0 } else { r.range(2, 9) as usize };
            steps.push(if r.chance(1, 6) { parsed(&toks) } else { case(&toks, &base, w) });
        }
        out.line(&json!({"steps": steps}));
    }
}
