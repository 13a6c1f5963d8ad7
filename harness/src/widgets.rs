//! Buttons, switches, option lists, header icons and tooltips, driven the way the event loop does.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::VecDeque;
use tcss::parser::parse_stylesheet;
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::canvas::{Canvas, Region, Size};
use textual::containers::container::Container;
use textual::containers::scrollable::ScrollableContainer;
use textual::containers::vertical::Vertical;
use textual::style_resolver::{resolve_dirty_styles, resolve_styles, InheritedContext};
use textual::tree::WidgetTree;
use textual::widget::option_list::OptionItem;
use textual::*;

type M = (usize, i64);
type W = Box<dyn Widget<M>>;

/// A widget that tracks hover and has a tooltip.
struct Tip { id: String, tip: Option<String>, hover: bool, style: ComputedStyle }
impl Widget<M> for Tip {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size { width: 3, height: 1 } }
    fn get_meta(&self) -> WidgetMeta { WidgetMeta { type_name: "Tip", type_names: vec!["Tip"], id: Some(self.id.clone()), classes: vec![], states: self.get_state() } }
    fn get_state(&self) -> WidgetStates { if self.hover { WidgetStates::HOVER } else { WidgetStates::empty() } }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_inline_style(&mut self, _: StyleOverride) {}
    fn inline_style(&self) -> Option<&StyleOverride> { None }
    fn clear_inline_style(&mut self) {}
    fn is_dirty(&self) -> bool { false }
    fn mark_dirty(&mut self) {}
    fn mark_clean(&mut self) {}
    fn id(&self) -> Option<&str> { Some(&self.id) }
    fn type_name(&self) -> &'static str { "Tip" }
    fn tooltip(&self) -> Option<String> { self.tip.clone() }
    fn set_hover(&mut self, h: bool) -> bool { let c = self.hover != h; self.hover = h; c }
    fn clear_hover(&mut self) { self.hover = false; }
    fn on_mouse(&mut self, e: MouseEvent, region: Region) -> Option<M> {
        if matches!(e.kind, MouseEventKind::Moved) { self.hover = region.contains_point(e.column as i32, e.row as i32); }
        None
    }
}

struct Fix { kind: &'static str, id: String, rect: (i32, i32, i32, i32), action: String, emits: bool, tip: String, inset: i32 }
const TEXTS: [&str; 9] = ["one", "two", "[b]x[/b]", "a\\b", "]z[", "w w", "é", "[red]q", "[on blue]"];

struct Case { fix: Vec<Fix>, css: String, texts: Vec<Vec<String>>, value: Vec<bool> }

fn leaf(r: &mut Rng, c: &mut Case, x: i32, y: i32) -> (W, i32) {
    let i = c.fix.len() + 1;
    let id = format!("w{i}");
    let kind = *r.pick(&["button", "button", "switch", "list", "tip"]);
    let w = r.range(if kind == "list" { 14 } else { 10 }, 20) as i32;
    let mut h = r.range(1, 3) as i32;
    let mut f = Fix { kind, id: id.clone(), rect: (0, 0, 0, 0), action: String::new(), emits: false, tip: String::new(), inset: 0 };
    let mut texts = vec![];
    let mut extra = String::new();
    let mut value = false;
    let wd: W = match kind {
        "button" => {
            let mut b = Button::new("OK").with_id(&id);
            if r.chance(1, 3) { f.action = format!("act{i}"); b = b.with_action(&f.action); }
            if r.chance(3, 4) { f.emits = true; b = if r.chance(1, 2) { b.with_message((i, 0)) } else { b.with_on_press(move || (i, 0)) }; }
            if r.chance(1, 3) { b = b.with_variant("primary").with_flat(r.chance(1, 2)); }
            Box::new(b)
        }
        "switch" => { f.emits = true; value = r.chance(1, 2); let f: Box<dyn Fn(bool) -> M> = Box::new(move |v| (i, v as i64)); Box::new(Switch::new(value, f).with_id(&id)) }
        "list" => {
            let n = r.below(4);
            texts = (0..n).map(|_| r.pick(&TEXTS).to_string()).collect();
            let (b, p) = (r.chance(1, 3), r.chance(1, 3));
            f.inset = b as i32 + p as i32;
            h = 4 + 2 * f.inset;
            if b { extra.push_str("border: solid red;"); }
            if p { extra.push_str("padding: 1;"); }
            Box::new(OptionList::new(texts.clone()).with_id(&id))
        }
        _ => { f.tip = if r.chance(3, 4) { format!("tip{i}") } else { String::new() }; Box::new(Tip { id: id.clone(), tip: if f.tip.is_empty() { None } else { Some(f.tip.clone()) }, hover: false, style: ComputedStyle::default() }) }
    };
    f.rect = (x, y, w, h);
    c.css.push_str(&format!("#{id} {{ width: {w}; height: {h}; min-width: 0; min-height: 0; margin: 0; {extra} }}\n"));
    c.fix.push(f);
    c.texts.push(texts);
    c.value.push(value);
    let wd: W = if r.chance(1, 4) { Box::new(wd) } else { wd };
    (wd, h)
}
fn group(r: &mut Rng, c: &mut Case, x: i32, y0: i32, depth: usize, max: usize, ids: &mut usize) -> (Vec<W>, i32) {
    let mut v: Vec<W> = vec![];
    let mut y = y0;
    for _ in 0..r.range(1, 4) {
        if c.fix.len() >= max { break; }
        if depth < 2 && r.chance(1, 4) {
            *ids += 1;
            let id = format!("g{}", *ids);
            let (kids, h) = group(r, c, x, y, depth + 1, max, ids);
            if h == 0 { continue; }
            c.css.push_str(&format!("#{id} {{ width: 24; height: {h}; margin: 0; padding: 0; overflow: hidden; }}\n"));
            v.push(match r.below(3) {
                0 => Box::new(Container::new(kids).with_id(&id)),
                1 => Box::new(ScrollableContainer::new(kids).with_id(&id)),
                _ => Box::new(Vertical::new(kids).with_id(&id)),
            });
            y += h;
        } else {
            let (w, h) = leaf(r, c, x, y);
            v.push(w);
            y += h;
        }
    }
    (v, y - y0)
}

fn texts_at(cv: &Canvas, x: i32, y: i32, n: i32) -> String {
    let (w, h) = cv.size();
    (0..n).map(|k| if x + k < w as i32 && y < h as i32 { cv.cell_at(y as usize * w as usize + (x + k) as usize).symbol.to_string() } else { "?".into() }).collect()
}
fn with<T>(t: &mut WidgetTree<M>, id: &str, f: &mut dyn FnMut(&mut dyn Widget<M>) -> T) -> Option<T> { t.with_widget_by_id(id, |w| f(w)) }
fn list<T>(t: &mut WidgetTree<M>, id: &str, f: &mut dyn FnMut(&mut OptionList<M>) -> T) -> Option<T> {
    with(t, id, &mut |w| w.as_any_mut().and_then(|a| a.downcast_mut::<OptionList<M>>()).map(&mut *f)).flatten()
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x21AB);
    let n = if a.thorough { 6000 } else { 900 };
    let theme = tcss::types::Theme::new("t", true);
    for _ in 0..n {
        let mut c = Case { fix: vec![], css: String::new(), texts: vec![], value: vec![] };
        let max = r.range(1, 7) as usize;
        let mut ids = 0;
        let header = r.chance(1, 3);
        let top = header as i32;
        if header {
            c.fix.push(Fix { kind: "icon", id: String::new(), rect: (0, 0, 8, 1), action: "app.command_palette".into(), emits: false, tip: "Open the command palette".into(), inset: 0 });
            c.texts.push(vec![]); c.value.push(false);
            c.css.push_str("Header { dock: top; width: 100%; height: 1; layout: horizontal; }\nHeaderIcon { dock: left; width: 8; padding: 0 1; }\nHeaderTitle { width: 100%; text-wrap: nowrap; }\nHeaderClockSpace { dock: right; width: 10; }\n");
        }
        let (mut kids, _) = group(&mut r, &mut c, 0, top, 0, max.max(top as usize + 1), &mut ids);
        if header { kids.insert(0, Box::new(Header::new("T"))); }
        let screen = r.chance(1, 2);
        c.css.push_str("OptionList > .option-list--option { text-wrap: nowrap; }\n.option-list--option { height: auto; }\n#root { width: 60; height: 70; overflow: hidden; }\n");
        let root: W = if screen { Box::new(Screen::new(kids)) } else { Box::new(Container::new(kids).with_id("root")) };
        let mut tree = WidgetTree::new(root);
        let sheet = match guard(|| parse_stylesheet(&c.css).ok()).flatten() { Some(s) => s, None => panic!("sheet {}", c.css) };
        let region = Region::new(0, 0, 60, 70);
        let fix: Vec<Value> = c.fix.iter().map(|f| json!({"kind":f.kind,"x":f.rect.0,"y":f.rect.1,"w":f.rect.2,"h":f.rect.3,"action":f.action,"emits":f.emits as u8,"tip":f.tip,"inset":f.inset})).collect();
        let init: Vec<Value> = (0..c.fix.len()).map(|i| json!({"value":c.value[i] as u8,"items":vec![1; c.texts[i].len()]})).collect();
        let mut steps: Vec<Value> = vec![];
        guard(|| { tree.root_mut().on_resize(Size { width: 60, height: 70 }); resolve_styles(tree.root_mut(), &sheet, &theme, &mut VecDeque::new()) });
        let mut near = 0usize;
        for s in 0..r.range(6, 30) {
            let mut e;
            let ok = guard(|| {
                let i = if r.chance(2, 3) { near } else { r.below(c.fix.len()) };
                near = i;
                let id = c.fix[i].id.clone();
                let (fx, fy, fw, fh) = c.fix[i].rect;
                let mut msg: Option<(M, String, String)> = None;
                let mut mouse = false;
                let which = if s == 0 { 9 } else { r.below(17) };
                let mut ev = match which {
                    0..=7 => {
                        mouse = true;
                        let (x, y) = if r.chance(4, 5) { (fx + r.range(0, fw as i64 - 1) as i32, fy + r.range(0, fh as i64 - 1) as i32) } else { (r.range(0, 59) as i32, r.range(0, 40) as i32) };
                        let b = if r.chance(4, 5) { MouseButton::Left } else { MouseButton::Right };
                        let bn = if b == MouseButton::Left { "left" } else { "right" };
                        let (op, kind) = match r.below(9) { 0..=2 => ("down", MouseEventKind::Down(b)), 3..=6 => ("up", MouseEventKind::Up(b)), 7 => ("moved", MouseEventKind::Moved), _ => ("drag", MouseEventKind::Drag(b)) };
                        let me = MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE };
                        if op == "moved" { clear_all_hover(tree.root_mut()); }
                        let res = tree.root_mut().on_mouse_with_sender(me, region);
                        msg = res.map(|(m, s)| (m, s.id.unwrap_or_default(), s.type_name.to_string()));
                        json!({"op":op,"x":x,"y":y,"b":bn})
                    }
                    15 | 16 if c.fix[i].kind == "button" || c.fix[i].kind == "switch" => {
                        // an event handed to the widget itself, inside its region or not
                        let inside = r.chance(2, 3);
                        let at = Region::new(3, 4, 12, 2);
                        let b = if r.chance(4, 5) { MouseButton::Left } else { MouseButton::Right };
                        let bn = if b == MouseButton::Left { "left" } else { "right" };
                        let (what, kind) = match r.below(7) { 0..=2 => ("down", MouseEventKind::Down(b)), 3..=5 => ("up", MouseEventKind::Up(b)), _ => ("moved", MouseEventKind::Moved) };
                        let (x, y) = if inside { (r.range(3, 14), r.range(4, 5)) } else { *r.pick(&[(2, 4), (15, 4), (3, 3), (14, 6), (15, 6), (0, 0)]) };
                        let me = MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE };
                        let res = with(&mut tree, &id, &mut |w| { let ty = w.type_name().to_string(); w.on_mouse(me, at).map(|m| (m, ty)) }).flatten();
                        msg = res.map(|(m, ty)| (m, id.clone(), ty));
                        json!({"op":"hand","i":i + 1,"what":what,"b":bn,"in":inside as u8})
                    }
                    8 | 9 => { if id.is_empty() { json!({"op":"nop"}) } else { tree.focus_by_id(&id); json!({"op":"focus","i":i + 1}) } }
                    10 | 11 if tree.with_focused(|w| w.is_focused()) != Some(true) => json!({"op":"nop"}),
                    10 | 11 => {
                        let (kn, k) = *r.pick(&[("enter", KeyCode::Enter), ("space", KeyCode::Char(' ')), ("up", KeyCode::Up), ("down", KeyCode::Down), ("down", KeyCode::Down), ("x", KeyCode::Char('x'))]);
                        let info = tree.focused_sender_info();
                        let res = tree.dispatch_key(k);
                        msg = res.map(|m| (m, info.id.clone().unwrap_or_default(), info.type_name.to_string()));
                        json!({"op":"key","k":kn})
                    }
                    12 => { let b = r.chance(1, 2); let f = c.fix[i].kind; if f == "tip" || f == "icon" { json!({"op":"nop"}) } else { with(&mut tree, &id, &mut |w| w.set_disabled(!b)); json!({"op":"on","i":i + 1,"v":b as u8}) } }
                    13 if c.fix[i].kind == "switch" => {
                        // the application's own change of loading or value
                        let b = r.chance(1, 2);
                        if r.chance(1, 2) {
                            with(&mut tree, &id, &mut |w| w.as_any_mut().and_then(|a| a.downcast_mut::<Switch<M, Box<dyn Fn(bool) -> M>>>()).map(|s| s.set_value(b)));
                            json!({"op":"value","i":i + 1,"v":b as u8})
                        } else {
                        with(&mut tree, &id, &mut |w| w.set_loading(b));
                        json!({"op":"busy","i":i + 1,"v":b as u8})
                        }
                    }
                    _ if c.fix[i].kind == "list" => {
                        if r.chance(1, 2) { let k = r.below(6); list(&mut tree, &id, &mut |l| l.set_selected(k)); json!({"op":"sel","i":i + 1,"n":k}) }
                        else {
                            let n = r.below(5);
                            let t: Vec<String> = (0..n).map(|_| r.pick(&TEXTS).to_string()).collect();
                            let on: Vec<u8> = if r.chance(1, 4) { vec![1; n] } else { (0..n).map(|_| r.chance(1, 2) as u8).collect() };
                            list(&mut tree, &id, &mut |l| if on.iter().all(|x| *x == 1) { l.set_items(t.clone()) } else { l.set_items_with_state(t.iter().zip(&on).map(|(s, o)| OptionItem::new(s.clone()).disabled(*o == 0)).collect()) });
                            c.texts[i] = t;
                            json!({"op":"items","i":i + 1,"it":on})
                        }
                    }
                    _ => json!({"op":"nop"}),
                };
                let acts = collect_pending_actions_mut(tree.root_mut());
                let again = collect_pending_actions_mut(tree.root_mut());
                ev["acts"] = json!(acts);
                ev["left"] = json!(again.len());
                ev["tip"] = json!(find_hovered_tooltip_mut(tree.root_mut()).unwrap_or_default());
                ev["mouse"] = json!(mouse as u8);
                ev["msg"] = match msg { Some(((i, v), id, ty)) => json!([{"i":i,"v":v,"id":id,"ty":ty}]), None => json!([]) };
                resolve_dirty_styles(tree.root_mut(), &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::from_theme(&theme));
                let mut cv = Canvas::new(60, 70);
                tree.root_mut().render(&mut cv, region);
                let mut picked = vec![];
                let mut obs = vec![];
                for k in 0..c.fix.len() {
                    let f = &c.fix[k];
                    let mut o = json!({"kind":f.kind,"hover":0,"active":0,"focus":0,"shown":"","sel":0,"text":"","high":[],"rows":1});
                    let (x, y, w, _) = f.rect;
                    let st = if f.kind == "icon" {
                        let mut st = None;
                        tree.root_mut().for_each_child(&mut |h| h.for_each_child(&mut |ic| if ic.type_name() == "HeaderIcon" { st = Some(ic.get_state()) }));
                        st
                    } else { with(&mut tree, &f.id, &mut |w| w.get_state()) };
                    if let Some(s) = st { o["hover"] = json!(s.contains(WidgetStates::HOVER) as u8); o["active"] = json!(s.contains(WidgetStates::ACTIVE) as u8); o["focus"] = json!(s.contains(WidgetStates::FOCUS) as u8); } else { o["kind"] = json!("lost"); }
                    if f.kind == "switch" { o["shown"] = json!(texts_at(&cv, x, y, 10)); }
                    if f.kind == "list" {
                        if let Some(Some(p)) = list(&mut tree, &f.id, &mut |l| l.take_pending_selection()) { picked.push(json!([k + 1, p])); }
                        let s = list(&mut tree, &f.id, &mut |l| (l.selected_index(), l.selected().map(|s| s.to_string()).unwrap_or_default()));
                        if let Some((n, t)) = s { o["sel"] = json!(n); o["text"] = json!((t == c.texts[k].get(n).cloned().unwrap_or_default()) as u8); }
                        let mut high = vec![];
                        let mut m = 0;
                        with(&mut tree, &f.id, &mut |w| w.for_each_child(&mut |ch| { if ch.has_class("option-list--option-highlighted") { high.push(m); } m += 1; }));
                        o["high"] = json!(high);
                        // every option is drawn on its own row, literally
                        let ok = c.texts[k].iter().enumerate().all(|(n, t)| {
                            let got = texts_at(&cv, x + f.inset, y + f.inset + n as i32, w - 2 * f.inset);
                            got.trim_end() == t.trim_end()
                        });
                        o["rows"] = json!(ok as u8);
                        if !ok { o["drawn"] = json!(c.texts[k].iter().enumerate().map(|(n, t)| (texts_at(&cv, x + f.inset, y + f.inset + n as i32, w - 2 * f.inset), t.clone())).collect::<Vec<_>>()); }
                    }
                    obs.push(o);
                }
                ev["picked"] = json!(picked);
                ev["obs"] = json!(obs);
                ev
            });
            match ok { Some(v) => { e = v; e["panic"] = json!(0); } None => { e = json!({"op":"nop","panic":1}); } }
            let stop = e["panic"] == json!(1);
            steps.push(e);
            if stop { break; }
        }
        out.line(&json!({"fix": fix, "init": init, "steps": steps}));
    }
}
