//! Trees of real containers sized by their content: the size each asks for, and the leaves drawn when it gets it.
use crate::common::*;
use crate::probe::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::border::BorderKind;
use tcss::types::{ComputedStyle, Display, Layout as LayoutDirection, Scalar, Unit};
use textual::canvas::{Canvas, Region};
use textual::containers::container::Container;
use textual::containers::scrollable::ScrollableContainer;
use textual::containers::{horizontal::Horizontal, horizontal_scroll::HorizontalScroll, vertical::Vertical, vertical_scroll::VerticalScroll, Center, Middle};
use textual::Widget;

type W = Box<dyn Widget<u32>>;

/// sizes: -3 not set, -2 auto, -1 relative, otherwise cells (a leaf: what it asks for, 65535 = all there is)
#[derive(Clone)]
struct N {
    kind: usize,
    horiz: bool,
    on: bool,
    gone: bool,
    w: i64,
    h: i64,
    m: [i64; 4],
    b: [i64; 4],
    p: [i64; 4],
    num: u8,
    ctl: Option<Rc<RefCell<Ctl>>>,
    kids: Vec<N>,
}
const KINDS: &[&str] = &["leaf", "box", "vertical", "horizontal", "pane", "vpane", "hpane", "center", "middle"];

fn scalar(r: &mut Rng, v: i64) -> Option<Scalar> {
    let s = |value, unit| Some(Scalar { value, unit });
    match v {
        -3 => None,
        -2 => s(0.0, Unit::Auto),
        -1 => s(*r.pick(&[1.0, 50.0, 100.0]), *r.pick(&[Unit::Percent, Unit::ViewWidth, Unit::ViewHeight, Unit::Fraction, Unit::Width, Unit::Height])),
        n => s(n as f64, Unit::Cells),
    }
}
fn style(r: &mut Rng, n: &N) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    let e = |v: i64| cells(v as i32);
    s.margin.top = e(n.m[0]); s.margin.right = e(n.m[1]); s.margin.bottom = e(n.m[2]); s.margin.left = e(n.m[3]);
    s.padding.top = e(n.p[0]); s.padding.right = e(n.p[1]); s.padding.bottom = e(n.p[2]); s.padding.left = e(n.p[3]);
    for (i, x) in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left].into_iter().enumerate() {
        if n.b[i] == 1 { x.kind = *r.pick(&[BorderKind::Solid, BorderKind::Heavy, BorderKind::Tall]); }
    }
    s.layout = if n.horiz { LayoutDirection::Horizontal } else { LayoutDirection::Vertical };
    if n.kind == 0 {
        s.width = Some(if n.w == 65535 { Scalar { value: 1.0, unit: Unit::Fraction } } else { e(n.w) });
        s.height = Some(if n.h == 65535 { Scalar { value: 1.0, unit: Unit::Fraction } } else { e(n.h) });
    } else {
        s.width = scalar(r, n.w);
        s.height = scalar(r, n.h);
    }
    if n.gone { s.display = Display::None; }
    s
}
fn some4(r: &mut Rng, num: usize, max: i64) -> [i64; 4] {
    let mut v = [0; 4];
    if r.chance(num, 6) { for x in v.iter_mut() { if r.chance(1, 2) { *x = r.range(1, max) } } }
    v
}
fn leaf_size(r: &mut Rng, fill: bool, big: bool) -> i64 {
    if fill && r.chance(1, 14) { 65535 } else if big && r.chance(1, 12) { r.range(900, 3000) } else { r.range(0, 6) }
}
fn gen(r: &mut Rng, depth: usize, next: &mut u8, log: &Log, plain: bool, big: bool) -> N {
    let kind = if depth == 0 { 1 + r.below(6) } else if depth >= 3 || r.chance(1, 2) { 0 } else if plain { 1 + r.below(6) } else { 1 + r.below(8) };
    let mut n = N { kind, horiz: r.chance(1, 2), on: true, gone: false, w: -2, h: -2, m: some4(r, 3, 3), b: [0; 4], p: [0; 4], num: 0, ctl: None, kids: vec![] };
    fresh(r, &mut n, plain, big);
    match kind {
        0 => { n.num = *next; *next += 1; n.ctl = Some(Probe::new(n.num, 1, 1, log).1) }
        7 | 8 => n.kids.push(gen(r, depth + 1, next, log, plain, big)),
        _ => for _ in 0..*r.pick(&[0, 1, 2, 2, 3]) { n.kids.push(gen(r, depth + 1, next, log, plain, big)) },
    }
    n
}
/// new values for everything but the kind and the children
fn fresh(r: &mut Rng, n: &mut N, plain: bool, big: bool) {
    n.m = some4(r, 3, 3);
    n.b = some4(r, 2, 1);
    if r.chance(1, 4) { n.b = [1; 4] }
    n.p = some4(r, 2, 2);
    match n.kind {
        2 | 5 => n.horiz = false,
        3 | 6 => n.horiz = true,
        _ => {}
    }
    if n.kind == 0 {
        n.b = [0; 4]; n.p = [0; 4];
        n.w = leaf_size(r, !plain, big); n.h = leaf_size(r, !plain, big);
    } else if !plain {
        let any = |r: &mut Rng| *r.pick(&[-2, -2, -2, -2, -3, -1, 5]);
        n.w = any(r); n.h = any(r);
    }
}
/// bounding box of what a probe drew: x, y, w, h, number of cells
fn drawn(c: &Canvas, num: u8) -> [i64; 5] {
    let (w, h) = c.size();
    let (mut a, mut b, mut x, mut y, mut k) = (i32::MAX, i32::MAX, -1, -1, 0);
    for j in 0..h as i32 { for i in 0..w as i32 {
        if matches!(who(c, i, j), Some((n, ..)) if n == num) { a = a.min(i); b = b.min(j); x = x.max(i); y = y.max(j); k += 1; }
    } }
    if k == 0 { [0; 5] } else { [a as i64, b as i64, (x - a + 1) as i64, (y - b + 1) as i64, k] }
}
struct Build { log: Log }
impl Build {
    fn make(&self, r: &mut Rng, n: &N) -> W {
        let st = style(r, n);
        let kids: Vec<W> = n.kids.iter().map(|k| self.make(r, k)).collect();
        let mut w: W = match n.kind {
            0 => {
                let ctl = n.ctl.clone().unwrap();
                Box::new(Probe { num: n.num, ctl, log: self.log.clone(), keys: Default::default(), focusable: false, focused: false, dirty: true })
            }
            1 => Box::new(Container::new(kids)),
            2 => Box::new(Vertical::new(kids)),
            3 => Box::new(Horizontal::new(kids)),
            4 => Box::new(ScrollableContainer::new(kids)),
            5 => Box::new(VerticalScroll::new(kids)),
            6 => Box::new(HorizontalScroll::new(kids)),
            7 => Box::new(Center::new(kids)),
            _ => Box::new(Middle::new(kids)),
        };
        apply(r, n, w.as_mut(), st);
        w
    }
}
fn apply(_r: &mut Rng, n: &N, w: &mut dyn Widget<u32>, st: ComputedStyle) {
    w.set_style(st);
    if let Some(c) = &n.ctl { c.borrow_mut().size = Some((n.w as u16, n.h as u16, n.h as u16, 0)); }
    w.set_visible(n.on);
}
fn flat<'a>(n: &'a N, v: &mut Vec<&'a N>, kids: &mut Vec<Vec<usize>>) -> usize {
    let at = v.len();
    v.push(n); kids.push(vec![]);
    for k in &n.kids { let i = flat(k, v, kids); kids[at].push(i + 1); }
    at
}
fn desc(n: &N, kids: &[usize]) -> Value {
    let k = match n.kind { 0 => "leaf", 7 | 8 => "mid", _ => "con" };
    json!({"k": k, "dir": if n.horiz { "h" } else { "v" }, "on": (n.on && !n.gone) as u8, "w": n.w, "h": n.h, "mt": n.m[0], "mr": n.m[1], "mb": n.m[2], "ml": n.m[3],
        "bt": n.b[0], "br": n.b[1], "bb": n.b[2], "bl": n.b[3], "pt": n.p[0], "pr": n.p[1], "pb": n.p[2], "pl": n.p[3], "kids": kids, "what": KINDS[n.kind]})
}
fn find<'a>(n: &'a mut N, at: &mut usize) -> Option<(&'a mut N, Vec<usize>)> {
    if *at == 0 { return Some((n, vec![])); }
    for (i, k) in n.kids.iter_mut().enumerate() {
        *at -= 1;
        if let Some((x, mut p)) = find(k, at) { p.insert(0, i); return Some((x, p)); }
    }
    None
}
fn at_path(w: &mut dyn Widget<u32>, p: &[usize], f: &mut dyn FnMut(&mut dyn Widget<u32>)) {
    if p.is_empty() { f(w); return; }
    let mut i = 0;
    w.for_each_child(&mut |c| { if i == p[0] { at_path(c, &p[1..], f) } i += 1; });
}
fn sizes(w: &mut dyn Widget<u32>, v: &mut Vec<Value>) {
    let s = w.desired_size();
    v.push(json!([s.width, s.height]));
    w.for_each_child(&mut |c| sizes(c, v));
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x517e5);
    let n = if a.thorough { 12000 } else { 2500 };
    for _ in 0..n {
        let log: Log = Default::default();
        let (plain, big) = (r.chance(1, 2), r.chance(1, 6));
        let mut next = 1;
        let mut root = gen(&mut r, 0, &mut next, &log, plain, big);
        let sentinel = Probe::new(250, 1, 1, &log);
        sentinel.1.borrow_mut().size = Some((1, 1, 1, 0));
        let mut v = vec![]; let mut kids = vec![];
        flat(&root, &mut v, &mut kids);
        let nodes: Vec<Value> = v.iter().zip(&kids).map(|(n, k)| desc(n, k)).collect();
        let count = nodes.len();
        let mut steps = vec![];
        let built = guard(|| Build { log: log.clone() }.make(&mut r, &root));
        let Some(tree) = built else { steps.push(json!({"op": "new", "nodes": nodes, "panic": 1})); out.line(&json!({"steps": steps})); continue };
        let mut top: W = Box::new(Vertical::new(vec![tree, Box::new(sentinel.0)]));
        top.set_style(ComputedStyle::default());
        steps.push(json!({"op": "new", "nodes": nodes, "panic": 0}));
        let mut kinds: Vec<usize> = vec![];
        for _ in 0..r.range(2, 6) {
            if kinds.is_empty() { kinds = vec![0, 1, 2] }
            match *r.pick(&kinds) {
                0 => {
                    let mut k = r.below(count);
                    let mut at = k; k += 1;
                    let kd = kids[k - 1].clone();
                    let (x, mut p) = find(&mut root, &mut at).unwrap();
                    match r.below(3) {
                        0 => { x.gone = !x.gone && k > 1; if !x.gone { x.on = true } }
                        1 if x.kind < 7 => { x.on = !x.on || k == 1; }
                        _ => fresh(&mut r, x, plain, big),
                    }
                    let st = style(&mut r, x);
                    let x = x.clone();
                    p.insert(0, 0);
                    let ok = guard(|| at_path(top.as_mut(), &p, &mut |w| apply(&mut Rng::new(1), &x, w, st.clone())));
                    steps.push(json!({"op": "set", "i": k, "node": desc(&x, &kd), "panic": ok.is_none() as u8}));
                }
                1 => {
                    let mut got = vec![];
                    let ok = guard(|| at_path(top.as_mut(), &[0], &mut |w| sizes(w, &mut got)));
                    steps.push(json!({"op": "sizes", "got": got, "panic": ok.is_none() as u8}));
                }
                _ => {
                    let mut c = Canvas::new(60, 50);
                    let ok = guard(|| top.render(&mut c, Region { x: 0, y: 0, width: 60, height: 50 }));
                    let mut v = vec![]; flat(&root, &mut v, &mut vec![]);
                    let got: Vec<_> = v.iter().map(|n| if n.kind == 0 { drawn(&c, n.num) } else { [0; 5] }).collect();
                    steps.push(json!({"op": "draw", "cw": 60, "ch": 50, "got": got, "end": drawn(&c, 250), "panic": ok.is_none() as u8}));
                }
            }
        }
        let mut got = vec![];
        let ok = guard(|| at_path(top.as_mut(), &[0], &mut |w| sizes(w, &mut got)));
        steps.push(json!({"op": "sizes", "got": got, "panic": ok.is_none() as u8}));
        out.line(&json!({"steps": steps}));
    }
}
