//! Drives the real Input widget and records value / cursor / rendered row after every operation.
use crate::common::*;
use serde_json::{json, Value};
use textual::canvas::{Canvas, Region};
use textual::widget::input::Input;
use textual::{KeyCode, Widget};

#[derive(Clone, Debug)]
pub enum Op {
    Char(char),
    Backspace,
    Delete,
    Left,
    Right,
    Home,
    End,
    Other,
    SetValue(String),
    SetCursor(usize),
    Focus(bool),
    Disable(bool),
    Placeholder(Option<String>),
}

fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn apply(w: &mut Input<()>, op: &Op) {
    match op {
        Op::Char(c) => drop(w.on_event(KeyCode::Char(*c))),
        Op::Backspace => drop(w.on_event(KeyCode::Backspace)),
        Op::Delete => drop(w.on_event(KeyCode::Delete)),
        Op::Left => drop(w.on_event(KeyCode::Left)),
        Op::Right => drop(w.on_event(KeyCode::Right)),
        Op::Home => drop(w.on_event(KeyCode::Home)),
        Op::End => drop(w.on_event(KeyCode::End)),
        Op::Other => drop(w.on_event(KeyCode::F(5))),
        Op::SetValue(s) => w.set_value(s.clone()),
        Op::SetCursor(k) => w.set_cursor(*k),
        Op::Focus(b) => w.set_focus(*b),
        Op::Disable(b) => w.set_disabled(*b),
        Op::Placeholder(Some(s)) => w.set_placeholder(s.clone()),
        Op::Placeholder(None) => w.clear_placeholder(),
    }
}

fn row(w: &Input<()>) -> Value {
    let (cw, ch) = (60u16, 3u16);
    let mut c = Canvas::new(cw, ch);
    w.render(&mut c, Region::from_u16(0, 0, cw, ch));
    let hl = crossterm::style::Color::Rgb { r: 0xe0, g: 0xe0, b: 0xe0 };
    let mut cells: Vec<(String, bool)> = vec![];
    for x in 0..cw as usize {
        let cell = c.cell_at(x);
        if !cell.continuation {
            cells.push((cell.symbol.clone(), cell.bg == Some(hl)));
        }
    }
    while matches!(cells.last(), Some((s, false)) if s == " ") {
        cells.pop();
    }
    Value::Array(cells.iter().map(|(s, h)| json!({"g": cps(s), "h": *h as u32})).collect())
}

/// The row is compared unless a cluster has no base character (nothing printable to place).
fn renderable(s: &str) -> bool {
    let base = |c: char| !matches!(c as u32, 769 | 776 | 65039 | 8205);
    s.chars().next().map_or(true, base)
}

fn record(ops: &[Op], out: &mut Out) {
    let mut w: Input<()> = Input::new();
    let mut steps = vec![];
    let mut ph: Option<String> = None;
    for op in ops {
        if let Op::Placeholder(p) = op {
            ph = p.clone();
        }
        let r = guard(|| {
            apply(&mut w, op);
            let seen = renderable(w.value()) && ph.as_deref().map_or(true, renderable);
            let row = if seen { row(&w) } else { json!([]) };
            (w.value().to_string(), w.cursor(), seen, row)
        });
        let mut e = match op {
            Op::Char(c) => json!({"op":"char","a":*c as u32}),
            Op::Backspace => json!({"op":"backspace"}),
            Op::Delete => json!({"op":"delete"}),
            Op::Left => json!({"op":"left"}),
            Op::Right => json!({"op":"right"}),
            Op::Home => json!({"op":"home"}),
            Op::End => json!({"op":"end"}),
            Op::Other => json!({"op":"other"}),
            Op::SetValue(s) => json!({"op":"set_value","s":cps(s)}),
            Op::SetCursor(k) => json!({"op":"set_cursor","a":k}),
            Op::Focus(b) => json!({"op":"focus","a":*b as u32}),
            Op::Disable(b) => json!({"op":"disable","a":*b as u32}),
            Op::Placeholder(Some(s)) => json!({"op":"placeholder","s":[cps(s)]}),
            Op::Placeholder(None) => json!({"op":"placeholder","s":[]}),
        };
        let o = e.as_object_mut().unwrap();
        match r {
            Some((v, c, seen, row)) => {
                o.insert("panic".into(), json!(0));
                o.insert("value".into(), cps(&v));
                o.insert("cursor".into(), json!(c));
                o.insert("seen".into(), json!(seen as u32));
                o.insert("row".into(), row);
                steps.push(e);
            }
            None => {
                o.insert("panic".into(), json!(1));
                steps.push(e);
                break;
            }
        }
    }
    out.line(&json!({"steps": steps}));
}

const CH: &[char] = &['a', 'b', ' ', '[', ']', '\\', '中', '\u{301}', '\u{1F1E6}', '\u{1F1E7}', '\u{1F469}', '\u{200D}', '\u{1F4BB}'];

pub fn run(a: &Args, out: &mut Out) {
    let mut rng = Rng::new(a.seed);
    // every sequence over a small alphabet up to a fixed depth
    let alpha = [
        Op::Char('a'), Op::Char('\u{301}'), Op::Char('\u{1F1E6}'), Op::Char('中'),
        Op::Backspace, Op::Delete, Op::Left, Op::Right, Op::Home, Op::End,
    ];
    let depth = if a.thorough { 5 } else { 3 };
    let mut idx = vec![0usize; depth];
    loop {
        let mut ops: Vec<Op> = vec![Op::Focus(true)];
        ops.extend(idx.iter().map(|&i| alpha[i].clone()));
        record(&ops, out);
        let mut k = 0;
        while k < depth {
            idx[k] += 1;
            if idx[k] < alpha.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == depth {
            break;
        }
    }
    // long random sessions
    let n = if a.thorough { 6000 } else { 700 };
    for _ in 0..n {
        let mut ops = vec![];
        if rng.chance(3, 4) {
            ops.push(Op::Focus(true));
        }
        let text = |rng: &mut Rng| -> String { (0..rng.below(7)).map(|_| *rng.pick(CH)).collect() };
        for _ in 0..rng.range(6, 24) {
            ops.push(match rng.below(24) {
                0..=9 => Op::Char(*rng.pick(CH)),
                10 | 11 => Op::Backspace,
                12 | 13 => Op::Delete,
                14 | 15 => Op::Left,
                16 => Op::Right,
                17 => Op::Home,
                18 => Op::End,
                19 => Op::SetValue(text(&mut rng)),
                20 => Op::SetCursor(rng.below(9)),
                21 => Op::Focus(rng.chance(2, 3)),
                22 => if rng.chance(1, 2) { Op::Disable(rng.chance(1, 4)) } else { Op::Other },
                _ => { let s = text(&mut rng); Op::Placeholder(if rng.chance(1, 4) { None } else { Some(s) }) }
            });
        }
        record(&ops, out);
    }
}
