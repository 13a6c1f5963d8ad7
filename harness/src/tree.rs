//! Random widget trees made of the real containers and widgets: focus movement, bubbling, queries.
use crate::common::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::Display;
use tcss::{ComputedStyle, WidgetMeta, WidgetStates};
use textual::canvas::{Canvas, Region, Size};
use textual::containers::{
    container::Container, grid::Grid, horizontal::Horizontal, horizontal_scroll::HorizontalScroll, item_grid::ItemGrid,
    scrollable::ScrollableContainer, vertical::Vertical, vertical_scroll::VerticalScroll, Center, Middle,
};
use textual::message::MessageEnvelope;
use textual::tree::WidgetTree;
use textual::widget::{app_widget::AppWidget, screen::Screen};
use textual::{Button, Input, KeyCode, Label, OptionList, Static, Switch, Widget};

pub type B = Box<dyn Widget<u32>>;
#[derive(Default)]
#[doc(hidden)]
pub struct LogT { pub keys: Vec<usize>, pub seen: Vec<(usize, u32, Option<String>, String)> }
pub type Log = Rc<RefCell<LogT>>;

/// A custom widget: leaf or container, focusable or not, logging what reaches it.
pub struct Node {
    num: usize, ty: &'static str, id: Option<String>, can: bool, mode: usize, sv: bool, kids: Vec<B>, vis: bool, dis: bool, foc: bool,
    style: ComputedStyle, cls: Vec<String>, log: Log,
}
const MODES: [&str; 4] = ["log", "stop", "change", "changestop"];

impl Widget<u32> for Node {
    fn render(&self, _: &mut Canvas, _: Region) {}
    fn desired_size(&self) -> Size { Size::new(1, 1) }
    fn get_meta(&self) -> WidgetMeta { WidgetMeta { type_name: "Node", type_names: vec!["Node"], id: self.id.clone(), classes: self.cls.clone(), states: WidgetStates::empty() } }
    fn type_name(&self) -> &'static str { self.ty }
    fn id(&self) -> Option<&str> { self.id.as_deref() }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s; }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn is_visible(&self) -> bool { self.vis }
    fn set_visible(&mut self, v: bool) { if self.sv { self.vis = v; } }
    fn is_disabled(&self) -> bool { self.dis }
    fn set_disabled(&mut self, v: bool) { self.dis = v; }
    fn is_focusable(&self) -> bool { self.can && !self.dis && self.vis }
    fn set_focus(&mut self, f: bool) { self.foc = f; }
    fn is_focused(&self) -> bool { self.foc }
    fn count_focusable(&self) -> usize {
        self.is_focusable() as usize + self.kids.iter().filter(|c| c.participates_in_layout()).map(|c| c.count_focusable()).sum::<usize>()
    }
    fn clear_focus(&mut self) { self.foc = false; for k in &mut self.kids { k.clear_focus(); } }
    fn focus_nth(&mut self, mut n: usize) -> bool {
        if self.is_focusable() { if n == 0 { self.foc = true; return true; } n -= 1; }
        for k in self.kids.iter_mut().filter(|c| c.participates_in_layout()) {
            let c = k.count_focusable();
            if n < c { return k.focus_nth(n); }
            n -= c;
        }
        false
    }
    fn child_count(&self) -> usize { self.kids.len() }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<u32> + '_)> { self.kids.get_mut(i).map(|b| b.as_mut() as _) }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<u32>)) { for k in &mut self.kids { f(k.as_mut()); } }
    fn on_event(&mut self, _: KeyCode) -> Option<u32> { self.log.borrow_mut().keys.push(self.num); Some(self.num as u32) }
    fn handle_message(&mut self, e: &mut MessageEnvelope<u32>) -> Option<u32> {
        self.log.borrow_mut().seen.push((self.num, e.message, e.sender_id.clone(), e.sender_type.clone()));
        match self.mode { 1 => { e.stop(); None } 2 => Some(e.message + 100), 3 => { e.stop(); Some(e.message + 100) } _ => None }
    }
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> { Some(self) }
    fn add_class(&mut self, c: &str) { if !self.has_class(c) { self.cls.push(c.into()); } }
    fn remove_class(&mut self, c: &str) { self.cls.retain(|x| x != c); }
    fn has_class(&self, c: &str) -> bool { self.cls.iter().any(|x| x == c) }
    fn classes(&self) -> Vec<String> { self.cls.clone() }
}

pub struct Info { pub par: usize, pub id: String, pub ty: &'static str, can: bool, sv: bool, sd: bool, ss: bool, sc: bool, mode: &'static str, emit: bool }
pub struct Build<'a> { pub r: &'a mut Rng, pub info: Vec<Info>, pub log: Log, pub max: usize, pub custom: usize }
const IDS: [&str; 7] = ["a", "b", "c", "submit", "A", "a-b", "b"];

impl Build<'_> {
    fn id(&mut self) -> Option<&'static str> { if self.r.chance(1, 2) { Some(*self.r.pick(&IDS)) } else { None } }
    pub fn node(&mut self, par: usize, depth: usize) -> B {
        let me = self.info.len() + 1;
        self.info.push(Info { par, id: String::new(), ty: "", can: false, sv: false, sd: false, ss: true, sc: false, mode: "pass", emit: false });
        let root = par == 0;
        let leaf = !root && (depth >= 4 || self.info.len() >= self.max || self.r.chance(3, 5));
        let id = self.id();
        let custom = self.r.chance(self.custom, 10);
        let w: B = if custom {
            let (can, mode) = (if leaf { self.r.chance(4, 5) } else { self.r.chance(1, 6) }, if leaf || self.r.chance(1, 2) { 0 } else { self.r.below(4) });
            let ty = if leaf { "Leaf" } else { "Relay" };
            let kids = if leaf { vec![] } else { self.kids(me, depth, root) };
            let i = &mut self.info[me - 1];
            (i.ty, i.can, i.sv, i.sd, i.sc, i.mode, i.emit) = (ty, can, !root, true, true, MODES[mode], true);
            Box::new(Node { num: me, ty, id: id.map(Into::into), can, mode, sv: !root, kids, vis: true, dis: false, foc: false, style: Default::default(), cls: vec![], log: self.log.clone() })
        } else if leaf {
            let n = me as u32;
            let k = self.r.below(6);
            let i = &mut self.info[me - 1];
            macro_rules! idd { ($w:expr) => {{ let w = $w; match id { Some(x) => w.with_id(x), None => w } }}; }
            match k {
                0 => { (i.ty, i.can, i.sv, i.sd, i.sc, i.emit) = ("Button", true, true, true, true, true); Box::new(idd!(Button::new("ok").with_message(n))) }
                1 => { (i.ty, i.can, i.sv, i.sd, i.emit) = ("Switch", true, true, true, true); Box::new(idd!(Switch::new(false, move |_| n))) }
                2 => { (i.ty, i.can, i.sv, i.sd, i.sc) = ("Input", true, true, true, true); Box::new(idd!(Input::new())) }
                3 => { (i.ty, i.can, i.sv, i.sd, i.sc) = ("OptionList", true, true, true, true); Box::new(idd!(OptionList::new(vec!["x".into(), "y".into()]))) }
                4 => { (i.ty, i.sv, i.sd, i.sc) = ("Static", true, true, true); Box::new(idd!(Static::new("text"))) }
                _ => { (i.ty, i.sv, i.sd, i.sc) = ("Label", true, true, true); Box::new(idd!(Label::new("text"))) }
            }
        } else {
            let k = if root { self.r.below(12) } else { self.r.below(10) };
            let one = matches!(k, 8 | 9);
            let kids = if one { vec![self.node(me, depth + 1)] } else { self.kids(me, depth, root) };
            let i = &mut self.info[me - 1];
            macro_rules! idd { ($w:expr) => {{ let w = $w; match id { Some(x) => w.with_id(x), None => w } }}; }
            match k {
                0 => { (i.ty, i.sv, i.sc) = ("Container", true, true); Box::new(idd!(Container::new(kids))) }
                1 => { (i.ty, i.sv, i.sc) = ("ScrollableContainer", true, true); Box::new(idd!(ScrollableContainer::new(kids))) }
                2 => { (i.ty, i.sv, i.sc) = ("Vertical", true, true); Box::new(idd!(Vertical::new(kids))) }
                3 => { (i.ty, i.sv, i.sc) = ("Horizontal", true, true); Box::new(idd!(Horizontal::new(kids))) }
                4 => { (i.ty, i.sv) = ("VerticalScroll", true); Box::new(idd!(VerticalScroll::new(kids))) }
                5 => { (i.ty, i.sv) = ("HorizontalScroll", true); Box::new(idd!(HorizontalScroll::new(kids))) }
                6 => { (i.ty, i.sv) = ("Grid", true); Box::new(idd!(Grid::new(kids))) }
                7 => { (i.ty, i.sv) = ("ItemGrid", true); Box::new(idd!(ItemGrid::new(kids))) }
                8 => { (i.ty, i.ss) = ("Center", true); Box::new(Center::new(kids)) }
                9 => { (i.ty, i.ss) = ("Middle", true); Box::new(Middle::new(kids)) }
                10 => { i.ty = "Screen"; Box::new(Screen::new(kids)) }
                _ => { i.ty = "AppWidget"; Box::new(AppWidget::new(kids)) }
            }
        };
        let i = &mut self.info[me - 1];
        if !matches!(i.ty, "Center" | "Middle" | "Screen" | "AppWidget") { i.id = id.unwrap_or("").into(); }
        if self.r.chance(1, 12) { Box::new(w) } else { w }
    }
    fn kids(&mut self, me: usize, depth: usize, root: bool) -> Vec<B> {
        let n = if root { self.r.range(1, 5) } else { self.r.range(0, 4) };
        let mut v: Vec<B> = vec![];
        for _ in 0..n { if self.info.len() < self.max || v.is_empty() { v.push(self.node(me, depth + 1)); } }
        v
    }
}

fn walk(w: &mut dyn Widget<u32>, f: &mut dyn FnMut(&mut dyn Widget<u32>)) {
    f(w);
    for i in 0..w.child_count() { if let Some(c) = w.get_child_mut(i) { walk(c, f); } }
}
fn addr(w: &dyn Widget<u32>) -> usize { w as *const dyn Widget<u32> as *const () as usize }
fn at<'a>(w: &'a mut dyn Widget<u32>, paths: &[Vec<usize>], n: usize) -> &'a mut dyn Widget<u32> {
    let mut c = w;
    for &i in &paths[n - 1] { c = c.get_child_mut(i).unwrap(); }
    c
}

fn observe(t: &mut WidgetTree<u32>, paths: &[Vec<usize>], e: &mut Value) {
    let (mut vis, mut disp, mut dis, mut foc, mut cls) = (vec![], vec![], vec![], vec![], vec![]);
    let mut n = 0;
    walk(t.root_mut(), &mut |w| {
        n += 1;
        vis.push(w.is_visible() as u8);
        disp.push((w.get_style().display != Display::None) as u8);
        dis.push(w.is_disabled() as u8);
        if w.is_focused() { foc.push(n); }
        let mut c = w.classes();
        c.sort();
        cls.push(c);
    });
    let ix = t.focus_path().indices().to_vec();
    let live = t.has_live_focus();
    let s = t.focused_sender_info();
    e["vis"] = json!(vis); e["disp"] = json!(disp); e["dis"] = json!(dis); e["foc"] = json!(foc); e["cls"] = json!(cls);
    e["tgt"] = json!(paths.iter().position(|p| *p == ix).map(|x| x + 1).unwrap_or(0));
    e["live"] = json!(live as u8);
    e["sid"] = json!(s.id.unwrap_or_default()); e["sty"] = json!(s.type_name);
    e["n"] = json!(t.focusable_count());
}

pub fn run(a: &Args, out: &mut Out, what: usize) {
    let mut r = Rng::new(a.seed ^ 0x7EE ^ ((what as u64) << 20));
    let n = if a.thorough { 20000 } else { 4000 };
    for _ in 0..n {
        let log: Log = Default::default();
        let max = r.range(1, 16) as usize;
        let custom = *r.pick(&[0, 3, 5, 8, 10]);
        let mut b = Build { r: &mut r, info: vec![], log: log.clone(), max, custom };
        let root = b.node(0, 0);
        let info = b.info;
        let mut t = WidgetTree::new(root);
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        for i in 1..info.len() {
            let k = info[1..i].iter().filter(|x| x.par == info[i].par).count();
            let mut p = paths[info[i].par - 1].clone();
            p.push(k);
            paths.push(p);
        }
        let mut addrs = vec![];
        let mut first = json!({});
        walk(t.root_mut(), &mut |w| addrs.push(addr(w)));
        if guard(|| observe(&mut t, &paths, &mut first)).is_none() { first = json!({"cls": []}); }
        let head: Vec<Value> = info.iter().map(|i| json!({"par":i.par,"id":i.id,"type":i.ty,"can":i.can as u8,"sv":i.sv as u8,"sd":i.sd as u8,"ss":i.ss as u8,"sc":i.sc as u8,"mode":i.mode,"emit":i.emit as u8})).collect();
        let mut steps = vec![];
        let mut hidden: Vec<usize> = vec![];
        for _ in 0..r.range(6, 24) {
            let any = |r: &mut Rng, hidden: &[usize]| if !hidden.is_empty() && r.chance(1, 2) { *r.pick(hidden) } else { r.range(1, info.len() as i64) as usize };
            let mut e;
            let v = r.chance(1, 2);
            let ids = ["a", "b", "c", "submit", "", "zz", "A", "B", "a-b", "Submit"];
            let sel = {
                let ty = if r.chance(1, 4) { "" } else if r.chance(1, 12) { *r.pick(&["Nope", "leaf", "static", "Lea", "Button2"]) } else { info[r.below(info.len())].ty };
                let id = if r.chance(1, 2) { "" } else { *r.pick(&ids) };
                let hash = !id.is_empty() || r.chance(1, 4);
                let sp = if r.chance(1, 6) { " " } else { "" };
                (format!("{sp}{ty}{}{id}{sp}", if hash { "#" } else { "" }), ty, id)
            };
            let fil = if r.chance(1, 2) { "none" } else { *r.pick(&["enabled", "visible", "classy"]) };
            let class = *r.pick(&["x", "x", "y"]);
            let x = match what { 1 => { let c = r.below(20); if c < 4 { 100 } else { c } } 2 => r.below(20) , _ => 60 + r.below(60) };
            // 1: focus and bubbling mix; 2: focus mix; 3: queries
            macro_rules! q { ($t:expr, |$q:ident| $body:expr) => {{
                let mut $q = $t.query(&sel.0);
                $q = match fil { "enabled" => $q.filter(|w| !w.is_disabled()), "visible" => $q.filter(|w| w.is_visible()), "classy" => $q.filter(|w| w.has_class("x")), _ => $q };
                $body
            }}; }
            let which = |a: usize| addrs.iter().position(|y| *y == a).map(|y| y + 1).unwrap_or(0);
            let ok = match x {
                0..=4 => { e = json!({"op":"next"}); guard(|| { let k = t.focus_next(); e["res"] = json!(k.map(|k| k as i64).unwrap_or(-1)); }) }
                5..=7 => { e = json!({"op":"prev"}); guard(|| { let k = t.focus_previous(); e["res"] = json!(k.map(|k| k as i64).unwrap_or(-1)); }) }
                8 => { let k = r.range(0, 7) as usize; e = json!({"op":"index","k":k}); guard(|| { let b = t.set_focus_index(k); e["res"] = json!(b as u8); }) }
                9 => { let id = *r.pick(&ids); e = json!({"op":"id","id":id}); guard(|| { let b = t.focus_by_id(id); e["res"] = json!(b as u8); }) }
                10 | 11 => { e = json!({"op":"settle"}); guard(|| if !t.has_live_focus() { t.set_focus_index(0); }) }
                12 | 13 => { let n = any(&mut r, &hidden); e = json!({"op":"dis","nodes":[n],"v":v as u8}); hidden.push(n); guard(|| at(t.root_mut(), &paths, n).set_disabled(v)) }
                14..=16 => { let n = any(&mut r, &hidden); if n == 1 { continue; } e = json!({"op":"vis","nodes":[n],"v":v as u8}); hidden.push(n); guard(|| at(t.root_mut(), &paths, n).set_visible(v)) }
                17..=19 => {
                    let n = any(&mut r, &hidden); if n == 1 { continue; }
                    e = json!({"op":"disp","nodes":[n],"v":v as u8}); hidden.push(n);
                    guard(|| { let w = at(t.root_mut(), &paths, n); let mut s = w.get_style(); s.display = if v { Display::Block } else { Display::None }; w.set_style(s) })
                }
                100..=109 if what == 1 => {
                    if t.focus_path().indices().is_empty() || !t.has_live_focus() { continue; }
                    e = json!({"op":"key"});
                    *log.borrow_mut() = Default::default();
                    guard(|| {
                        let s = t.focused_sender_info();
                        let m = t.dispatch_key(KeyCode::Enter);
                        e["recv"] = json!(log.borrow().keys);
                        e["msg"] = json!(m.unwrap_or(0));
                        e["seen"] = json!([]); e["fin"] = json!(0); e["stopped"] = json!(0); e["who"] = json!([]);
                        if let Some(m) = m {
                            let f = t.bubble_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name));
                            let l = log.borrow();
                            e["seen"] = json!(l.seen.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>());
                            e["fin"] = json!(f.message); e["stopped"] = json!(!f.is_bubbling() as u8);
                            let mut who: Vec<Value> = l.seen.iter().map(|x| json!([x.2.clone().unwrap_or_default(), x.3])).collect();
                            who.push(json!([f.sender_id.clone().unwrap_or_default(), f.sender_type]));
                            e["who"] = json!(who);
                            e["recv"] = json!(l.keys);
                        }
                    })
                }
                60..=69 => {
                    e = json!({"op":"q","how":"one","t":sel.1,"i":sel.2,"f":"none"});
                    guard(|| { let n = t.query_one(&sel.0, |w| addr(w)).map(which).unwrap_or(0); e["res"] = json!([n]); })
                }
                70..=73 => {
                    let id = *r.pick(&ids);
                    e = json!({"op":"q","how":"one","t":"","i":id,"f":"none"});
                    guard(|| { let n = t.with_widget_by_id(id, |w| addr(w)).map(which).unwrap_or(0); e["res"] = json!([n]); })
                }
                74..=77 => {
                    let ty = info[r.below(info.len())].ty;
                    e = json!({"op":"q","how":"one","t":ty,"i":"","f":"none"});
                    guard(|| { let n = t.with_widget_by_type(ty, |w| addr(w)).map(which).unwrap_or(0); e["res"] = json!([n]); })
                }
                78..=80 => {
                    e = json!({"op":"q","how":"as","t":sel.1,"i":sel.2,"f":"none"});
                    guard(|| { let n = t.query_one_as::<Node, _, _>(&sel.0, |w| w.num).unwrap_or(0); e["res"] = json!([n]); })
                }
                81..=86 => {
                    e = json!({"op":"q","how":"all","t":sel.1,"i":sel.2,"f":fil});
                    guard(|| { let mut v = vec![]; q!(t, |q| q.for_each(|w| v.push(which(addr(w))))); e["res"] = json!(v); })
                }
                87..=89 => {
                    e = json!({"op":"q","how":"count","t":sel.1,"i":sel.2,"f":fil});
                    guard(|| { let n = q!(t, |q| q.count()); e["res"] = json!([n]); })
                }
                90..=93 => {
                    e = json!({"op":"q","how":"one","t":sel.1,"i":sel.2,"f":fil});
                    guard(|| { let n = q!(t, |q| q.first(|w| addr(w))).map(which).unwrap_or(0); e["res"] = json!([n]); })
                }
                94..=97 => {
                    e = json!({"op":"q","how":"last","t":sel.1,"i":sel.2,"f":fil});
                    guard(|| { let n = q!(t, |q| q.last(|w| addr(w))).map(which).unwrap_or(0); e["res"] = json!([n]); })
                }
                98..=109 => {
                    let how = *r.pick(&["add", "add", "remove", "toggle", "toggle"]);
                    e = json!({"op":"cls","how":how,"t":sel.1,"i":sel.2,"f":fil,"c":class});
                    let alt = r.chance(1, 2);
                    guard(|| q!(t, |q| match how { "add" => if alt { q.set_class(true, class) } else { q.add_class(class) }, "remove" => if alt { q.set_class(false, class) } else { q.remove_class(class) }, _ => q.toggle_class(class) }))
                }
                110..=113 => { e = json!({"op":"visq","t":sel.1,"i":sel.2,"f":fil,"v":v as u8}); guard(|| q!(t, |q| q.set_visible(v))) }
                114..=116 => { e = json!({"op":"disq","t":sel.1,"i":sel.2,"f":fil,"v":v as u8}); guard(|| q!(t, |q| q.set_disabled(v))) }
                _ => { e = json!({"op":"next"}); guard(|| { let k = t.focus_next(); e["res"] = json!(k.map(|k| k as i64).unwrap_or(-1)); }) }
            };
            let ok = ok.and_then(|_| guard(|| observe(&mut t, &paths, &mut e)));
            e["panic"] = json!(ok.is_none() as u8);
            let stop = ok.is_none();
            steps.push(e);
            if stop { break; }
        }
        out.line(&json!({"nodes": head, "cls": first["cls"], "steps": steps}));
    }
}
