//! Incremental restyling of real widget trees.
use crate::common::*;
use crate::css::{self, El, Vocab};
use crate::tree::{Build, Log};
use serde_json::{json, Value};
use std::collections::VecDeque;
use tcss::parser::{cascade::WidgetStates, parse_stylesheet};
use tcss::types::{RgbaColor, StyleOverride};
use textual::canvas::Region;
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
use textual::{KeyCode, MouseButton, MouseEvent, MouseEventKind, KeyModifiers, Widget};

fn walk(w: &mut dyn Widget<u32>, par: usize, n: &mut usize, f: &mut dyn FnMut(&mut dyn Widget<u32>, usize, usize)) {
    *n += 1;
    let me = *n;
    f(w, me, par);
    w.for_each_child(&mut |c| walk(c, me, n, f));
}
fn all(w: &mut dyn Widget<u32>, f: &mut dyn FnMut(&mut dyn Widget<u32>, usize, usize)) { let mut n = 0; walk(w, 0, &mut n, f); }
fn states(s: WidgetStates) -> Vec<&'static str> {
    [(WidgetStates::FOCUS, "focus"), (WidgetStates::HOVER, "hover"), (WidgetStates::ACTIVE, "active"), (WidgetStates::DISABLED, "disabled")].iter().filter(|x| s.contains(x.0)).map(|x| x.1).collect()
}
fn snapshot(root: &mut dyn Widget<u32>, e: &mut Value) {
    let (mut els, mut vis, mut inl, mut style, mut par) = (vec![], vec![], vec![], vec![], vec![]);
    all(root, &mut |w, _, p| {
        let m = w.get_meta();
        let ty = if m.type_names.is_empty() { vec![m.type_name] } else { m.type_names.clone() };
        els.push(json!({"ty":ty,"id":m.id.unwrap_or_default(),"cls":m.classes,"st":states(m.states),"foc":w.is_focused() as u8,"dis":w.is_disabled() as u8,"gcls":w.classes(),"gid":w.id().unwrap_or("")}));
        vis.push(w.is_visible() as u8);
        let c = |x: Option<&RgbaColor>| x.map(css::colour).unwrap_or_default();
        let i = w.inline_style().cloned().unwrap_or_default();
        inl.push(json!({"color":c(i.color.as_ref()),"background":c(i.background.as_ref()),"tint":c(i.tint.as_ref())}));
        style.push(css::observe(&w.get_style()));
        par.push(p);
    });
    e["els"] = json!(els); e["vis"] = json!(vis); e["inl"] = json!(inl); e["styles"] = json!(style); e["par"] = json!(par);
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x8E57);
    let th = css::themes();
    let n = if a.thorough { 6000 } else { 1200 };
    for _ in 0..n {
        let log: Log = Default::default();
        let max = r.range(2, 11) as usize;
        let mut b = Build { r: &mut r, info: vec![], log, max, custom: 0 };
        let mut root = b.node(0, 0);
        // the sheet: written against the chains that exist
        let mut chains: Vec<Vec<El>> = vec![];
        all(root.as_mut(), &mut |w, _, p| {
            let m = w.get_meta();
            let ty = if m.type_names.is_empty() { vec![m.type_name] } else { m.type_names.clone() };
            let mut c = vec![El { ty, id: m.id.clone().unwrap_or_default(), cls: vec!["x".into(), "y".into()], st: vec!["focus", "hover", "active", "disabled"] }];
            if p > 0 { c.extend(chains[p - 1].clone()); }
            chains.push(c);
        });
        let v = Vocab { types: vec!["Widget", "Static", "Button", "Input", "Container"], ids: vec!["a", "b", "c", "submit"], classes: vec!["x", "y", "-on"], states: vec!["focus", "hover", "active", "disabled"] };
        let pal: Vec<&'static str> = vec!["color", "color", "background", "background", "visibility", "visibility", "margin", "margin-left", "display", "text-style", "border", "width", "tint", "opacity", "background-tint"];
        let mut rules = vec![];
        for _ in 0..r.range(2, 7) {
            let c = r.pick(&chains).clone();
            rules.push(css::rule(&mut r, &v, &c, &pal, 0, true));
        }
        let text = css::print(&mut r, &rules, false);
        let mut d = r.below(2);
        let sheet = match guard(|| parse_stylesheet(&text).ok()).flatten() { Some(s) => s, None => { out.line(&json!({"rules": [], "tv": css::theme_json(), "ct": css::numbers(), "steps": [{"op":"unparsed","src":text,"panic":1}]})); continue; } };
        let mut steps: Vec<Value> = vec![];
        let fg = |d: usize| format!("{},7,7,1", if d == 0 { 10 } else { 20 });
        let mut e = json!({"op":"full","dark":d,"fg":fg(d)});
        let ok = guard(|| { resolve_styles(root.as_mut(), &sheet, &th[d], &mut VecDeque::new()); snapshot(root.as_mut(), &mut e); });
        e["panic"] = json!(ok.is_none() as u8);
        let mut going = ok.is_some();
        steps.push(e);
        let count = chains.len();
        let mut touched: Vec<usize> = vec![];
        let mut back: Vec<(usize, usize)> = vec![];
        for _ in 0..r.range(3, 8) {
            if !going { break; }
            let mut done = vec![];
            for _ in 0..r.range(1, 4) {
                // often what was switched on is later switched off again
                let undo = if r.chance(1, 3) { back.pop() } else { None };
                let k = if let Some((k, _)) = undo { k } else if !touched.is_empty() && r.chance(1, 2) { *r.pick(&touched) } else { r.range(1, count as i64) as usize };
                touched.push(k);
                let what = if let Some((_, w)) = undo { if w == 9 && r.chance(1, 2) { 11 } else { w } } else { r.below(16) };
                let flag = undo.is_none() && r.chance(1, 2);
                if flag && (7..=10).contains(&what) { back.push((k, what)); }
                let cls = *r.pick(&["x", "x", "y", "-on"]);
                let colour = *r.pick(&[(1u8, 2u8, 3u8), (200, 100, 50)]);
                let on = RgbaColor::rgb(colour.0, colour.1, colour.2);
                let fld = r.below(3);
                let kind = r.below(3);
                let name = ["add", "remove", "toggle", "set", "classes", "visible", "visible", "disabled", "focus", "hover", "active", "clearhover", "inline", "uninline", "mouse", "key"][what];
                done.push(json!([k, name, flag, cls]));
                let ok = guard(|| all(root.as_mut(), &mut |w, me, _| if me == k {
                    match what {
                        0 => w.add_class(cls), 1 => w.remove_class(cls), 2 => w.toggle_class(cls), 3 => w.set_class(flag, cls),
                        4 => w.set_classes(if flag { "x -on" } else { "y" }),
                        5 | 6 => if me > 1 { w.set_visible(flag) }, 7 => w.set_disabled(flag), 8 => w.set_focus(flag), 9 => { w.set_hover(flag); } 10 => { w.set_active(flag); }
                        11 => w.clear_hover(),
                        12 => { let s = StyleOverride::new(); w.set_inline_style(match fld { 0 => s.color(on.clone()), 1 => s.background(on.clone()), _ => s.tint(on.clone()) }) }
                        13 => w.clear_inline_style(),
                        14 => {
                            let k = match kind { 0 => MouseEventKind::Down(MouseButton::Left), 1 => MouseEventKind::Up(MouseButton::Left), _ => MouseEventKind::Moved };
                            let inside = flag as u16 * 50;
                            if w.child_count() == 0 { w.on_mouse(MouseEvent { kind: k, column: 1 + inside, row: 1, modifiers: KeyModifiers::NONE }, Region::new(0, 0, 20, 3)); }
                        }
                        _ => { w.on_event(KeyCode::Enter); }
                    }
                }));
                if ok.is_none() { going = false; }
            }
            // the theme changes: everything is styled again
            let other = r.chance(1, 6);
            if other { d = 1 - d; }
            let mut e = json!({"op":"restyle","did":done,"dark":d,"fg":fg(d)});
            let ok = guard(|| { if other { resolve_styles(root.as_mut(), &sheet, &th[d], &mut VecDeque::new()) } else { resolve_dirty_styles(root.as_mut(), &sheet, &th[d], &mut VecDeque::new(), false, &InheritedContext::from_theme(&th[d])) }; snapshot(root.as_mut(), &mut e); });
            e["panic"] = json!((ok.is_none() || !going) as u8);
            if ok.is_none() { going = false; }
            steps.push(e);
        }
        out.line(&json!({"rules": rules.iter().map(css::rule_json).collect::<Vec<_>>(), "src": text, "tv": css::theme_json(), "ct": css::numbers(), "steps": steps}));
    }
}
