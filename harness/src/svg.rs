//! Canvases exported as SVG, ANSI text and plain text, taken apart again.
use crate::common::*;
use crossterm::style::Color;
use serde_json::{json, Value};
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::svg::{SvgConfig, SvgRenderer};

const SYMS: &[&str] = &[" ", " ", "a", "b", "Z", "<", ">", "&", "\"", "'", "e\u{301}", "…", "─", "中", "👩\u{200D}💻", ";", "#"];

fn rgb(r: u8, g: u8, b: u8) -> i64 { (r as i64) << 16 | (g as i64) << 8 | b as i64 }
/// colour + 1, 0 for none, -1 for anything not RGB
fn col(c: Option<Color>) -> i64 {
    match c { None => 0, Some(Color::Rgb { r, g, b }) => rgb(r, g, b) + 1, Some(_) => -1 }
}
fn hex(s: &str) -> i64 {
    match s.strip_prefix('#') { Some(h) if h.len() == 6 => i64::from_str_radix(h, 16).map_or(-1, |v| v + 1), _ => -1 }
}
fn cps(s: &str) -> Vec<u32> { s.chars().map(|c| if c == '\u{a0}' { 32 } else { c as u32 }).collect() }

/// value of an attribute of an element's opening tag
fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let k = format!(" {name}=\"");
    let i = tag.find(&k)? + k.len();
    let e = tag[i..].find('"')?;
    Some(&tag[i..i + e])
}
/// number of whole units, or -1 when it is not one
fn units(v: Option<&str>, unit: f32, off: f32) -> i64 {
    match v.and_then(|s| s.parse::<f64>().ok()) {
        None => -1,
        Some(x) => { let q = (x + off as f64) / unit as f64; if (q - q.round()).abs() < 0.01 { q.round() as i64 } else { -1 } }
    }
}
fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '<' { return None; }
        if c == '&' {
            let e = rest.find(';')?;
            match &rest[1..e] {
                "lt" => out.push('<'), "gt" => out.push('>'), "amp" => out.push('&'), "quot" => out.push('"'), "apos" => out.push('\''),
                n => out.push(char::from_u32(n.strip_prefix('#')?.parse().ok()?)?),
            }
            rest = &rest[e + 1..];
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    Some(out)
}

fn parse(svg: &str, cw: f32, lh: f32) -> Value {
    let mut bad = 0;
    // colour classes
    let mut classes: Vec<(String, i64)> = vec![];
    if let (Some(a), Some(b)) = (svg.find("<style>"), svg.find("</style>")) {
        for rule in svg[a..b].split('}') {
            if let Some((sel, body)) = rule.split_once('{') {
                if let (Some(name), Some(f)) = (sel.trim().strip_prefix('.'), body.trim().strip_prefix("fill:")) { classes.push((name.to_string(), hex(f.trim().trim_end_matches(';')))); }
            }
        }
    } else { bad = 1; }
    let mut rects = vec![];
    let mut texts = vec![];
    let mut clips = vec![];
    let mut view = json!([-1, -1]);
    let mut clip: Option<String> = None;
    let mut rest = match svg.find("</style>") { Some(i) => { let h = &svg[..i]; if let Some(s) = h.find("<svg") { let tag = &h[s..s + h[s..].find('>').unwrap_or(0)];
        if let Some(v) = attr(tag, "viewBox") { let n: Vec<&str> = v.split(' ').collect(); if n.len() == 4 && n[0] == "0" && n[1] == "0" { view = json!([units(Some(n[2]), cw, 0.0), units(Some(n[3]), lh, 0.0)]); } } } &svg[i + 8..] } None => "" };
    let mut stack = vec!["svg".to_string()];
    while let Some(i) = rest.find('<') {
        if !rest[..i].trim().is_empty() { bad = 1; }
        rest = &rest[i..];
        let Some(e) = rest.find('>') else { bad = 1; break };
        let tag = &rest[..e];
        rest = &rest[e + 1..];
        if let Some(n) = tag.strip_prefix("</") {
            if stack.pop().as_deref() != Some(n) { bad = 1; }
            if n == "clipPath" { clip = None; }
            continue;
        }
        let name = tag[1..].split([' ', '/']).next().unwrap_or("");
        let open = !tag.ends_with('/');
        match name {
            "clipPath" => clip = attr(tag, "id").map(str::to_string),
            "rect" => {
                let (x, y) = (units(attr(tag, "x"), cw, 0.0), units(attr(tag, "y"), lh, 0.0));
                let w = units(attr(tag, "width"), cw, 0.0);
                match &clip {
                    Some(id) => {
                        let h = attr(tag, "height").and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
                        clips.push(json!({"id": id.strip_prefix("terminal-line-").and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1), "x": x, "y": y, "w": w, "h": (h / lh as f64 + 0.02).floor() as i64}));
                    }
                    None => rects.push(json!({"x": x, "y": y, "w": w, "h": units(attr(tag, "height"), lh, 0.0), "c": attr(tag, "fill").map_or(-1, hex)})),
                }
            }
            "text" => {
                let Some(end) = rest.find("</text>") else { bad = 1; break };
                let (mut at, mut ok) = (0, true);
                if let Some(st) = attr(tag, "style") {
                    for d in st.split(';').map(str::trim).filter(|d| !d.is_empty()) {
                        match d { "font-weight: bold" => at |= 1, "font-style: italic" => at |= 2,
                            _ => match d.strip_prefix("text-decoration: ") {
                                Some(v) => for w in v.split(' ') { match w { "underline" => at |= 4, "line-through" => at |= 8, _ => ok = false } },
                                None => ok = false } }
                    }
                }
                let class = attr(tag, "class").unwrap_or("");
                let line = attr(tag, "clip-path").and_then(|c| c.strip_prefix("url(#terminal-line-")).and_then(|c| c.strip_suffix(')')).and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1);
                match unescape(&rest[..end]) {
                    Some(s) if ok => texts.push(json!({"x": units(attr(tag, "x"), cw, 0.0), "y": units(attr(tag, "y"), lh, 4.0) - 1, "n": units(attr(tag, "textLength"), cw, 0.0),
                        "fg": classes.iter().find(|c| c.0 == class).map_or(0, |c| c.1), "at": at, "line": line, "s": cps(&s)})),
                    _ => bad = 1,
                }
                rest = &rest[end + 7..];
                continue;
            }
            "g" | "defs" => {}
            _ => bad = 1,
        }
        if open { stack.push(name.to_string()); }
    }
    if !rest.trim().is_empty() || !stack.is_empty() { bad = 1; }
    json!({"bad": bad, "view": view, "rects": rects, "texts": texts, "clips": clips})
}

/// escape sequences and characters of one line: [kind, value]: 0 reset, 1 attribute bit, 2 foreground, 3 background, 4 character
fn tokens(line: &str) -> Vec<[i64; 2]> {
    let mut out = vec![];
    let mut rest = line;
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix("\x1b[") {
            let Some(e) = r.find('m') else { out.push([9, 0]); break };
            let n: Vec<i64> = r[..e].split(';').map(|v| v.parse().unwrap_or(-1)).collect();
            rest = &r[e + 1..];
            match n[..] {
                [0] => out.push([0, 0]),
                [k @ (1 | 2 | 3 | 4 | 7 | 9)] => out.push([1, match k { 1 => 1, 3 => 2, 4 => 4, 9 => 8, 2 => 16, _ => 32 }]),
                [39] => out.push([2, 0]),
                [49] => out.push([3, 0]),
                [k @ (38 | 48), 2, r, g, b] => out.push([if k == 38 { 2 } else { 3 }, rgb(r as u8, g as u8, b as u8) + 1]),
                _ => out.push([9, 1]),
            }
        } else {
            out.push([4, c as i64]);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

fn cells(c: &Canvas) -> Vec<Vec<Value>> {
    let (w, h) = c.size();
    (0..h as usize).map(|y| (0..w as usize).map(|x| {
        let k = c.cell_at(y * w as usize + x);
        let a = k.attrs;
        let at = a.bold as i64 | (a.italic as i64) << 1 | (a.underline as i64) << 2 | (a.strike as i64) << 3 | (a.dim as i64) << 4 | (a.reverse as i64) << 5;
        json!({"s": if k.continuation { vec![] } else { cps(&k.symbol) }, "k": k.continuation as u8, "fg": col(k.fg), "bg": col(k.bg), "at": at})
    }).collect()).collect()
}

fn paint(r: &mut Rng) -> (Option<RgbaColor>, Option<RgbaColor>, TextAttributes) {
    let c = |r: &mut Rng| match r.below(5) { 0 | 1 => None, 2 => Some(RgbaColor::rgb(250, 1, 2)), 3 => Some(RgbaColor::rgb(0, 0, 0)), _ => Some(RgbaColor::rgb(16, 160, r.below(3) as u8)) };
    let b = if r.chance(2, 3) { 0 } else { r.below(64) };
    (c(r), c(r), TextAttributes { bold: b & 1 != 0, italic: b & 2 != 0, underline: b & 4 != 0, strike: b & 8 != 0, dim: b & 16 != 0, reverse: b & 32 != 0 })
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x53);
    for _ in 0..(if a.thorough { 9000 } else { 1200 }) {
        let (w, h) = (r.range(1, 9), r.range(1, 3));
        let mut c = Canvas::new(w as u16, h as u16);
        let mut steps = vec![];
        for _ in 0..r.range(1, 5) {
            for _ in 0..r.range(0, 3) {
                let (x, y) = (r.range(-1, w - 1) as i32, r.range(0, h - 1) as i32);
                let (fg, bg, at) = paint(&mut r);
                let n = r.range(1, w + 1);
                let s: String = (0..n).map(|_| *r.pick(SYMS)).collect();
                if r.chance(1, 8) { c.push_clip(Region::new(r.range(0, w) as i32, 0, r.range(0, w) as i32, h as i32)); c.put_str(x, y, &s, fg, bg, at); c.pop_clip(); }
                else { c.put_str(x, y, &s, fg, bg, at); }
            }
            let plain = r.chance(1, 2);
            let (cw, lh) = if plain { (12.2f32, 24.4f32) } else { (*r.pick(&[12.2f32, 10.0, 8.5]), *r.pick(&[24.4f32, 20.0, 17.25])) };
            let svg = guard(|| if plain { c.to_svg(if r.chance(1, 2) { None } else { Some("A <title> & more") }) }
                else { SvgRenderer::new(SvgConfig { char_width: cw, line_height: lh, font_size: 14.0, ..Default::default() }).render(&c) });
            let ansi = guard(|| c.to_ansi_snapshot());
            let text = guard(|| (c.to_snapshot(), (0..h).map(|y| c.row_str(y as i32)).collect::<Vec<_>>()));
            let panic = svg.is_none() || ansi.is_none() || text.is_none();
            let (snap, rows) = text.unwrap_or_default();
            steps.push(json!({"op": "export", "panic": panic as u8, "w": w, "h": h, "cells": cells(&c), "svg": parse(&svg.unwrap_or_default(), cw, lh),
                "ansi": ansi.unwrap_or_default().split('\n').map(tokens).collect::<Vec<_>>(),
                "snap": snap.split('\n').map(cps).collect::<Vec<_>>(), "rows": rows.iter().map(|s| cps(s)).collect::<Vec<_>>()}));
            if r.chance(1, 6) { c.clear(); }
        }
        out.line(&json!({"steps": steps}));
    }
}
