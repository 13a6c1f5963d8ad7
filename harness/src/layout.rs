//! Arrangement of children: textual::layouts driven directly with plain layout nodes.
use crate::common::*;
use serde_json::{json, Value};
use tcss::types::border::BorderKind;
use tcss::types::{AlignHorizontal, AlignVertical, BoxSizing, ComputedStyle, Dock, Layout, Position, Scalar, Unit};
use textual::canvas::{Region, Size};
use textual::layouts::{arrange_children_with_layers, LayoutChild, LayoutNode, Viewport};

pub struct Node {
    pub size: Size,
    pub ih: u16,
    pub area: u16,
}
impl LayoutNode for Node {
    fn desired_size(&self) -> Size {
        self.size
    }
    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
        if self.area == 0 { self.ih } else { self.area.div_ceil(width.max(1)) }
    }
}

/// A length: unit name and value (fr in halves).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Len(pub &'static str, pub i64);
pub const NONE: Len = Len("none", 0);
impl Len {
    pub fn scalar(&self) -> Option<Scalar> {
        let u = match self.0 {
            "none" => return None,
            "c" => Unit::Cells,
            "p" => Unit::Percent,
            "vw" => Unit::ViewWidth,
            "vh" => Unit::ViewHeight,
            "w" => Unit::Width,
            "h" => Unit::Height,
            "fr" => return Some(Scalar { value: self.1 as f64 / 2.0, unit: Unit::Fraction }),
            "auto" => Unit::Auto,
            _ => unreachable!(),
        };
        Some(Scalar { value: self.1 as f64, unit: u })
    }
    fn j(&self) -> Value {
        json!({"u": self.0, "v": self.1})
    }
}

#[derive(Clone, Debug)]
pub struct Kid {
    pub w: Len, pub h: Len, pub minw: Len, pub maxw: Len, pub minh: Len, pub maxh: Len,
    pub m: [i64; 4],
    pub cb: bool, pub pad: [i64; 4], pub border: bool,
    pub dw: u16, pub dh: u16, pub ih: u16, pub area: u16,
    pub cs: u16, pub rs: u16,
    pub dock: &'static str, pub abs: bool, pub layer: &'static str, pub ox: Len, pub oy: Len,
}
impl Default for Kid {
    fn default() -> Self {
        Kid { w: NONE, h: NONE, minw: NONE, maxw: NONE, minh: NONE, maxh: NONE, m: [0; 4], cb: false, pad: [0; 4], border: false,
            dw: 4, dh: 2, ih: 2, area: 0, cs: 1, rs: 1, dock: "none", abs: false, layer: "", ox: NONE, oy: NONE }
    }
}
#[derive(Clone, Debug)]
pub struct Par {
    pub layout: &'static str, pub ha: &'static str, pub va: &'static str,
    pub cols: u16, pub rows: u16, pub colspecs: Vec<Len>, pub rowspecs: Vec<Len>, pub gutv: i64, pub guth: i64,
    pub autow: bool, pub autoh: bool, pub layers: Vec<&'static str>,
}
impl Par {
    pub fn new(layout: &'static str) -> Self {
        Par { layout, ha: "left", va: "top", cols: 0, rows: 0, colspecs: vec![], rowspecs: vec![], gutv: 0, guth: 0, autow: false, autoh: false, layers: vec![] }
    }
    pub fn style(&self) -> ComputedStyle {
        let mut s = ComputedStyle::default();
        s.layout = match self.layout { "vertical" => Layout::Vertical, "horizontal" => Layout::Horizontal, _ => Layout::Grid };
        s.align_horizontal = match self.ha { "left" => AlignHorizontal::Left, "center" => AlignHorizontal::Center, _ => AlignHorizontal::Right };
        s.align_vertical = match self.va { "top" => AlignVertical::Top, "middle" => AlignVertical::Middle, _ => AlignVertical::Bottom };
        s.grid.columns = (self.cols > 0).then_some(self.cols);
        s.grid.rows = (self.rows > 0).then_some(self.rows);
        s.grid.column_widths = self.colspecs.iter().filter_map(|l| l.scalar()).collect();
        s.grid.row_heights = self.rowspecs.iter().filter_map(|l| l.scalar()).collect();
        s.grid.gutter = (Scalar { value: self.gutv as f64, unit: Unit::Cells }, Scalar { value: self.guth as f64, unit: Unit::Cells });
        if self.autow { s.width = Some(Scalar { value: 0.0, unit: Unit::Auto }); }
        if self.autoh { s.height = Some(Scalar { value: 0.0, unit: Unit::Auto }); }
        if !self.layers.is_empty() { s.layers = Some(self.layers.iter().map(|s| s.to_string()).collect()); }
        s
    }
    pub fn j(&self) -> Value {
        json!({"layout": self.layout, "ha": self.ha, "va": self.va, "cols": self.cols, "rows": self.rows,
            "colspecs": self.colspecs.iter().map(|l| l.j()).collect::<Vec<_>>(),
            "rowspecs": self.rowspecs.iter().map(|l| l.j()).collect::<Vec<_>>(),
            "gutv": self.gutv, "guth": self.guth, "autow": self.autow as u8, "autoh": self.autoh as u8, "layers": self.layers})
    }
}
impl Kid {
    pub fn style(&self) -> ComputedStyle {
        let mut s = ComputedStyle::default();
        s.width = self.w.scalar();
        s.height = self.h.scalar();
        s.min_width = self.minw.scalar();
        s.max_width = self.maxw.scalar();
        s.min_height = self.minh.scalar();
        s.max_height = self.maxh.scalar();
        let c = |v: i64| Scalar { value: v as f64, unit: Unit::Cells };
        s.margin.top = c(self.m[0]); s.margin.right = c(self.m[1]); s.margin.bottom = c(self.m[2]); s.margin.left = c(self.m[3]);
        s.padding.top = c(self.pad[0]); s.padding.right = c(self.pad[1]); s.padding.bottom = c(self.pad[2]); s.padding.left = c(self.pad[3]);
        if self.border {
            for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] { e.kind = BorderKind::Round; }
        }
        s.box_sizing = if self.cb { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
        s.grid_placement.column_span = self.cs;
        s.grid_placement.row_span = self.rs;
        s.dock = match self.dock { "top" => Some(Dock::Top), "bottom" => Some(Dock::Bottom), "left" => Some(Dock::Left), "right" => Some(Dock::Right), _ => None };
        if self.abs { s.position = Position::Absolute; }
        if !self.layer.is_empty() { s.layer = Some(self.layer.to_string()); }
        s.offset_x = self.ox.scalar();
        s.offset_y = self.oy.scalar();
        s
    }
    pub fn j(&self, i: usize) -> Value {
        let b = if self.border { 2 } else { 0 };
        json!({"i": i, "w": self.w.j(), "h": self.h.j(), "minw": self.minw.j(), "maxw": self.maxw.j(), "minh": self.minh.j(), "maxh": self.maxh.j(),
            "mt": self.m[0], "mr": self.m[1], "mb": self.m[2], "ml": self.m[3], "cb": self.cb as u8,
            "chw": self.pad[1] + self.pad[3] + b, "chh": self.pad[0] + self.pad[2] + b,
            "dw": self.dw, "dh": self.dh, "ih": self.ih, "area": self.area, "cs": self.cs, "rs": self.rs,
            "dock": self.dock, "abs": self.abs as u8, "layer": self.layer, "ox": self.ox.j(), "oy": self.oy.j()})
    }
}

pub fn case(p: &Par, kids: &[Kid], av: Region, vp: Viewport) -> Value {
    let r = guard(|| {
        let nodes: Vec<Node> = kids.iter().map(|k| Node { size: Size { width: k.dw, height: k.dh }, ih: k.ih, area: k.area }).collect();
        let ch: Vec<LayoutChild> = kids.iter().zip(&nodes).enumerate()
            .map(|(i, (k, n))| LayoutChild { index: i, style: k.style(), desired_size: n.size, node: n }).collect();
        arrange_children_with_layers(&p.style(), &ch, av, vp).iter()
            .map(|p| json!({"i": p.child_index, "x": p.region.x, "y": p.region.y, "w": p.region.width, "h": p.region.height})).collect::<Vec<_>>()
    });
    let mut v = json!({"op": p.layout, "panic": 0, "par": p.j(), "kids": kids.iter().enumerate().map(|(i, k)| k.j(i)).collect::<Vec<_>>(),
        "av": {"x": av.x, "y": av.y, "w": av.width, "h": av.height}, "vp": {"w": vp.width, "h": vp.height}});
    match r {
        Some(o) => v["out"] = json!(o),
        None => v["panic"] = json!(1),
    }
    v
}

const PCT: &[i64] = &[5, 10, 20, 25, 30, 33, 40, 50, 60, 66, 75, 80, 90, 100];
pub fn len(r: &mut Rng, grid: bool) -> Len {
    match r.below(if grid { 8 } else { 12 }) {
        0 => NONE,
        1 | 2 => Len("c", r.range(0, 9)),
        3 | 4 => Len("p", *r.pick(PCT)),
        5 => Len("auto", 0),
        6 | 7 => Len("fr", r.range(1, 6)),
        8 => Len("vw", *r.pick(PCT)),
        9 => Len("w", *r.pick(PCT)),
        10 => Len("h", *r.pick(PCT)),
        _ => Len("vh", *r.pick(PCT)),
    }
}
pub fn bound(r: &mut Rng, lo: i64, hi: i64) -> Len {
    match r.below(14) {
        0 | 1 => Len("c", r.range(lo, hi)),
        2 => Len("p", *r.pick(PCT)),
        3 => Len("vw", *r.pick(PCT)),
        4 => Len("vh", *r.pick(PCT)),
        5 => Len(*r.pick(&["w", "h"]), *r.pick(PCT)),
        _ => NONE,
    }
}
/// A random in-flow child.
pub fn kid(r: &mut Rng, layout: &str, plain: bool) -> Kid {
    let grid = layout == "grid";
    let mut k = Kid { w: len(r, grid), h: len(r, grid), dw: r.range(0, 12) as u16, dh: r.range(0, 5) as u16, ih: r.range(0, 5) as u16, ..Kid::default() };
    // the height "w" of a vertical layout's child is documented as relative to the screen
    if layout == "vertical" && k.h.0 == "w" { k.h.0 = "vw"; }
    if r.chance(1, 3) { k.area = r.range(1, 60) as u16; }
    if r.chance(1, 3) { for m in &mut k.m { *m = r.range(0, 3); } }
    if !plain {
        if !grid {
            if r.chance(1, 3) { k.minw = bound(r, 0, 8); k.maxw = bound(r, 2, 14); k.minh = bound(r, 0, 4); k.maxh = bound(r, 1, 8); }
            // box-sizing: content-box matters for lengths given in cells
            if r.chance(1, 5) && !(layout == "vertical" && k.w.0 == "c") {
                k.cb = true;
                k.border = r.chance(1, 2);
                for p in &mut k.pad { *p = r.range(0, 2); }
            }
        }
        if layout == "vertical" && k.h.0 == "none" && r.chance(1, 2) { k.dh = u16::MAX; }
        if layout == "horizontal" && matches!(k.w.0, "none" | "auto") && r.chance(1, 2) { k.dw = u16::MAX; }
    }
    if grid && r.chance(1, 3) { k.cs = r.range(1, 4) as u16; k.rs = r.range(1, 3) as u16; }
    k
}
pub fn par(r: &mut Rng, layout: &'static str) -> Par {
    let mut p = Par::new(layout);
    if layout == "grid" {
        p.cols = r.range(0, 4) as u16;
        p.rows = if r.chance(1, 2) { 0 } else { r.range(1, 4) as u16 };
        p.gutv = if r.chance(1, 2) { 0 } else { r.range(0, 2) };
        p.guth = if r.chance(1, 2) { 0 } else { r.range(0, 3) };
        for which in 0..2 {
            if r.chance(1, 2) {
                let auto = r.chance(1, 4);       // auto tracks are not mixed with fr tracks
                let v: Vec<Len> = (0..r.range(1, 4)).map(|_| match r.below(3) {
                    0 => Len("c", r.range(1, 9)),
                    1 => Len("p", *r.pick(PCT)),
                    _ => if auto { Len("auto", 0) } else { Len("fr", r.range(1, 6)) },
                }).collect();
                if which == 0 { p.colspecs = v } else { p.rowspecs = v }
            }
        }
        p.autow = r.chance(1, 5);
        p.autoh = r.chance(1, 4);
    }
    p
}
fn area(r: &mut Rng) -> (Region, Viewport) {
    let av = Region { x: r.range(0, 5) as i32, y: r.range(0, 5) as i32, width: r.range(0, 60) as i32, height: r.range(0, 40) as i32 };
    let vp = if r.chance(1, 3) { av.into() } else { Viewport { width: r.range(1, 79) as i32, height: r.range(1, 60) as i32 } };
    (av, vp)
}

/// P09: the three flow layouts.
pub fn run_flow(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x1a);
    // n equal or weighted sharers in every size: the classic remainder cases
    for lay in ["vertical", "horizontal", "grid"] {
        for n in 1..=7usize {
            let mut steps = vec![];
            for size in 0..=(if a.thorough { 60 } else { 26 }) {
                for pat in 0..3 {
                    let kids: Vec<Kid> = (0..n).map(|i| {
                        let fr = Len("fr", match pat { 0 => 2, 1 => 2 + (i as i64 % 3), _ => 2 * (1 + i as i64 % 2) });
                        let mut k = Kid { m: if pat == 2 { [i as i64 % 2; 4] } else { [0; 4] }, ..Kid::default() };
                        if lay == "vertical" { k.h = fr } else { k.w = fr }
                        k
                    }).collect();
                    let mut p = Par::new(lay);
                    if lay == "grid" { p.cols = n as u16; p.colspecs = kids.iter().map(|k| k.w).collect(); }
                    let av = Region { x: 1, y: 2, width: if lay == "vertical" { 9 } else { size }, height: if lay == "vertical" { size } else { 7 } };
                    steps.push(case(&p, &kids, av, Viewport { width: 50, height: 45 }));
                }
            }
            out.line(&json!({"steps": steps}));
        }
    }
    let n = if a.thorough { 20000 } else { 5000 };
    for i in 0..n {
        let lay = ["vertical", "horizontal", "grid"][i % 3];
        let mut steps = vec![];
        for _ in 0..4 {
            let p = par(&mut r, lay);
            let plain = r.chance(1, 3);
            let nk = r.range(0, if lay == "grid" { 9 } else { 6 });
            let mut kids: Vec<Kid> = (0..nk).map(|_| kid(&mut r, lay, plain)).collect();
            if lay != "grid" && r.chance(1, 2) {
                // mostly sharing
                for k in &mut kids { if r.chance(2, 3) { if lay == "vertical" { k.h = Len("fr", r.range(1, 6)) } else { k.w = Len("fr", r.range(1, 6)) } } }
            }
            let (av, vp) = area(&mut r);
            steps.push(case(&p, &kids, av, vp));
        }
        out.line(&json!({"steps": steps}));
    }
}

/// P22: docking, layers, alignment, offsets, absolute children around any flow layout.
pub fn run_arrange(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x22);
    let n = if a.thorough { 20000 } else { 5000 };
    for i in 0..n {
        let lay = ["vertical", "horizontal", "grid"][i % 3];
        let mut steps = vec![];
        for _ in 0..4 {
            let mut p = par(&mut r, lay);
            p.ha = *r.pick(&["left", "center", "right"]);
            p.va = *r.pick(&["top", "middle", "bottom"]);
            if r.chance(1, 2) {
                let all = ["base", "over", "top", "default"];
                let s = r.below(4);
                p.layers = (0..r.range(1, 3) as usize).map(|k| all[(s + k * (1 + s % 2 * 2)) % 4]).collect();
            }
            let layered = r.chance(1, 2);
            let kids: Vec<Kid> = (0..r.range(0, 7)).map(|_| {
                let mut k = kid(&mut r, lay, true);
                if r.chance(1, 2) {
                    // small: leaves room to align
                    k.w = if r.chance(1, 2) { Len("c", r.range(1, 6)) } else { Len("auto", 0) };
                    k.h = if r.chance(1, 2) { Len("c", r.range(1, 3)) } else { Len("auto", 0) };
                }
                match r.below(8) {
                    0 | 1 => k.dock = *r.pick(&["top", "bottom", "left", "right"]),
                    2 => {
                        k.abs = true;
                        k.w = len(&mut r, false);
                        k.h = len(&mut r, false);
                        if r.chance(1, 2) { k.minw = bound(&mut r, 0, 8); k.maxw = bound(&mut r, 2, 14); k.minh = bound(&mut r, 0, 4); k.maxh = bound(&mut r, 1, 8); }
                        if r.chance(1, 4) && k.w.0 != "auto" && k.h.0 != "auto" { k.cb = true; k.border = r.chance(1, 2); for p in &mut k.pad { *p = r.range(0, 2); } }
                        if r.chance(1, 4) { k.dw = u16::MAX; }
                    }
                    _ => {}
                }
                if layered { k.layer = *r.pick(&["", "base", "over", "top", "default", "misc", "odd"]); }
                if r.chance(1, 3) {
                    let off = |r: &mut Rng| match r.below(7) { 0 => NONE, 6 => Len(*r.pick(&["w", "h"]), [-100, -50, -25, 25, 50, 100][r.below(6)]), 1 | 2 => Len("c", r.range(-6, 6)), 3 => Len("p", [-100, -50, -25, 25, 50, 100][r.below(6)]),
                        4 => Len("vw", [-50, -10, 10, 25, 50][r.below(5)]), _ => Len("vh", [-50, -10, 10, 25, 50][r.below(5)]) };
                    k.ox = off(&mut r);
                    k.oy = off(&mut r);
                }
                k
            }).collect();
            let (av, vp) = area(&mut r);
            let mut v = case(&p, &kids, av, vp);
            v["op"] = json!(format!("{lay}{}{}{}", if kids.iter().any(|k| k.dock != "none") { "+dock" } else { "" }, if kids.iter().any(|k| k.abs) { "+abs" } else { "" }, if layered { "+layers" } else { "" }));
            steps.push(v);
        }
        out.line(&json!({"steps": steps}));
    }
}
