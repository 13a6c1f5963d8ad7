//! A leaf widget whose every rendered cell identifies itself (colour = local x, local y, probe number)
//! and which logs the events it receives.
use std::cell::RefCell;
use std::rc::Rc;
use tcss::types::{RgbaColor, Scalar, Unit};
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::canvas::{Canvas, Region, Size, TextAttributes};
use textual::{KeyCode, MouseEvent, Widget};

#[derive(Clone, Debug, PartialEq)]
pub struct Hit {
    pub num: u8,
    pub lx: i32,
    pub ly: i32,
    pub region: Region,
}
pub type Log = Rc<RefCell<Vec<Hit>>>;

pub struct Ctl {
    pub style: ComputedStyle,
    pub visible: bool,
    /// desired width and height, intrinsic height and area (0: intrinsic height does not depend on width)
    pub size: Option<(u16, u16, u16, u16)>,
}

pub struct Probe {
    pub num: u8,
    pub ctl: Rc<RefCell<Ctl>>,
    pub log: Log,
    pub keys: Rc<RefCell<Vec<(u8, KeyCode)>>>,
    pub focusable: bool,
    pub focused: bool,
    pub dirty: bool,
}

pub fn cells(n: i32) -> Scalar {
    Scalar { value: n as f64, unit: Unit::Cells }
}

impl Probe {
    pub fn new(num: u8, w: i32, h: i32, log: &Log) -> (Self, Rc<RefCell<Ctl>>) {
        let mut style = ComputedStyle::default();
        style.width = Some(cells(w));
        style.height = Some(cells(h));
        let ctl = Rc::new(RefCell::new(Ctl { style, visible: true, size: None }));
        (Probe { num, ctl: ctl.clone(), log: log.clone(), keys: Default::default(), focusable: false, focused: false, dirty: true }, ctl)
    }
}

/// (probe number, local x, local y) shown at a canvas cell, if a probe drew it last
pub fn who(c: &Canvas, x: i32, y: i32) -> Option<(u8, i32, i32)> {
    let (w, h) = c.size();
    if x < 0 || y < 0 || x >= w as i32 || y >= h as i32 {
        return None;
    }
    let cell = c.cell_at(y as usize * w as usize + x as usize);
    match (&cell.symbol[..], cell.fg) {
        ("#", Some(crossterm::style::Color::Rgb { r, g, b })) => Some((b, r as i32, g as i32)),
        _ => None,
    }
}

impl Widget<u32> for Probe {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        for y in 0..region.height.min(250) {
            for x in 0..region.width.min(250) {
                canvas.put_char(region.x + x, region.y + y, '#', Some(RgbaColor::rgb(x as u8, y as u8, self.num)), None, TextAttributes::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        let c = self.ctl.borrow();
        if let Some((w, h, ..)) = c.size { return Size::new(w, h); }
        let f = |s: &Option<Scalar>| match s { Some(Scalar { value, unit: Unit::Cells }) => *value as u16, Some(Scalar { unit: Unit::Auto, .. }) | None => 1, _ => u16::MAX };
        Size::new(f(&c.style.width), f(&c.style.height))
    }
    fn intrinsic_height_for_width(&self, w: u16) -> u16 {
        match self.ctl.borrow().size {
            Some((_, _, ih, area)) => if area == 0 { ih } else { area.div_ceil(w.max(1)) },
            None => self.desired_size().height,
        }
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Probe", type_names: vec!["Probe", "Widget", "DOMNode"], id: None, classes: vec![], states: WidgetStates::empty() }
    }
    fn sender_info(&self) -> textual::widget::SenderInfo {
        textual::widget::SenderInfo { id: Some(format!("p{}", self.num)), type_name: "Probe" }
    }
    fn set_style(&mut self, s: ComputedStyle) { self.ctl.borrow_mut().style = s; }
    fn get_style(&self) -> ComputedStyle { self.ctl.borrow().style.clone() }
    fn set_inline_style(&mut self, _: StyleOverride) {}
    fn is_visible(&self) -> bool { self.ctl.borrow().visible }
    fn set_visible(&mut self, v: bool) { self.ctl.borrow_mut().visible = v; }
    fn is_focusable(&self) -> bool { self.focusable && self.is_visible() }
    fn set_focus(&mut self, f: bool) { self.focused = f; }
    fn is_focused(&self) -> bool { self.focused }
    fn is_dirty(&self) -> bool { self.dirty }
    fn mark_dirty(&mut self) { self.dirty = true; }
    fn mark_clean(&mut self) { self.dirty = false; }
    fn on_event(&mut self, key: KeyCode) -> Option<u32> { self.keys.borrow_mut().push((self.num, key)); None }
    fn on_mouse(&mut self, e: MouseEvent, region: Region) -> Option<u32> {
        self.log.borrow_mut().push(Hit { num: self.num, lx: e.column as i32 - region.x, ly: e.row as i32 - region.y, region });
        Some(self.num as u32)
    }
}
