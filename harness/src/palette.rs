//! Drives the command palette with providers that answer when told to, on a clock that stands still.
use crate::common::*;
use crate::css;
use async_trait::async_trait;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tcss::parser::parse_stylesheet;
use textual::canvas::{Canvas, Region};
use textual::command::{CommandPaletteEvent, DiscoveryHit, Hit, Provider};
use textual::style_resolver::resolve_styles;
use textual::{CommandPalette, KeyCode, KeyModifiers, MouseButton, MouseEvent, MouseEventKind, Widget};
use tokio::sync::oneshot;

const NAMES: &[&str] = &["", "Quit", "open file", "Theme [dark]", "né w", "a", "Zoom  in", "go \\[x", "日本 cmd", "close all"];
fn help(id: usize) -> Option<&'static str> { match id { 2 => Some("reads [it]"), 4 => Some("new"), 7 => Some("x \\"), 9 => Some("all of them"), _ => None } }
fn esc(s: &str) -> String { s.chars().flat_map(|c| if "[]\\".contains(c) { vec!['\\', c] } else { vec![c] }).collect() }
fn action(id: usize) -> String { format!("app.do('{}')", id) }
fn id_of(action: &str) -> i64 { (1..NAMES.len()).find(|&k| self::action(k) == action).map(|k| k as i64).unwrap_or(-7) }

#[derive(Default)]
struct Shared { calls: Vec<(usize, Value)>, gates: HashMap<usize, oneshot::Sender<Vec<(usize, i64)>>> }
struct Slow { serial: usize, sh: Arc<Mutex<Shared>> }
impl Slow {
    async fn wait(&self, call: Value) -> Vec<(usize, i64)> {
        let (tx, rx) = oneshot::channel();
        { let mut s = self.sh.lock().unwrap(); s.calls.push((self.serial, call)); s.gates.insert(self.serial, tx); }
        rx.await.unwrap_or_default()
    }
    fn note(&self, what: &str) { self.sh.lock().unwrap().calls.push((self.serial, json!([what]))); }
}
#[async_trait]
impl Provider for Slow {
    async fn startup(&mut self) { self.note("startup") }
    async fn shutdown(&mut self) { self.note("shutdown") }
    async fn search(&mut self, q: &str) -> Vec<Hit> {
        let h = self.wait(json!(["search", q.chars().map(|c| c.to_string()).collect::<Vec<_>>()])).await;
        h.into_iter().map(|(id, s)| Hit { score: s as f32 / 4.0, match_display: esc(NAMES[id]), action: action(id), text: NAMES[id].into(), help: help(id).map(Into::into) }).collect()
    }
    async fn discover(&mut self) -> Vec<DiscoveryHit> {
        let h = self.wait(json!(["discover"])).await;
        h.into_iter().map(|(id, _)| DiscoveryHit { display: esc(NAMES[id]), action: action(id), text: NAMES[id].into(), help: help(id).map(Into::into) }).collect()
    }
}
async fn settle() { for _ in 0..40 { tokio::task::yield_now().await; } }
const W: usize = 50;
const H: usize = 44;
fn walk(w: &mut dyn Widget<u32>, f: &mut dyn FnMut(&mut dyn Widget<u32>)) { f(w); w.for_each_child(&mut |c| walk(c, f)); }

struct Seen { look: Vec<i64>, at: Vec<(u16, i64)>, query: Vec<String>, busy: u8, high: i64, lines: Vec<String> }
fn see(p: &mut CommandPalette<u32>) -> Seen {
    let mut d: Vec<(usize, &'static str)> = vec![];
    walk(p, &mut |w| { let c = w.default_css(); if !c.is_empty() && !d.iter().any(|x| x.1 == c) { d.push((w.get_meta().type_names.len(), c)); } });
    d.sort_by_key(|x| x.0);
    let text: String = d.iter().map(|x| x.1).collect::<Vec<_>>().join("\n");
    thread_local!(static SHEETS: std::cell::RefCell<HashMap<String, std::rc::Rc<tcss::parser::stylesheet::StyleSheet>>> = Default::default());
    let sheet = SHEETS.with(|s| s.borrow_mut().entry(text.clone()).or_insert_with(|| std::rc::Rc::new(parse_stylesheet(&text).expect("default css"))).clone());
    resolve_styles(p, &sheet, &css::themes()[1], &mut VecDeque::new());
    let mut c = Canvas::new(W as u16, H as u16);
    p.render(&mut c, Region::new(0, 0, W as i32, H as i32));
    let mut lines = vec![];
    for y in 0..H {
        let mut s = String::new();
        for x in 0..W { let k = c.cell_at(y * W + x); if !k.continuation { s.push_str(&k.symbol); } }
        lines.push(s);
    }
    let mut v = Seen { look: vec![], at: vec![], query: vec![], busy: 0, high: 0, lines: lines.clone() };
    for (y, l) in lines.iter().enumerate() {
        let t = l.trim_end();
        if let Some(k) = t.find('🔎') {
            let q = t[k + '🔎'.len_utf8()..].trim_end_matches(|c| c == '▶' || c == ' ');
            // one blank between the icon and the text
            let q = q.strip_prefix(' ').unwrap_or(q);
            v.query = if q == "Search for commands…" { vec![] } else { q.chars().map(|c| c.to_string()).collect() };
            continue;
        }
        let t = t.trim();
        if t.is_empty() || t.chars().all(|c| "▔▁─▀▄▊▎█ ".contains(c)) { continue; }
        if t.chars().all(|c| ('\u{2801}'..='\u{28ff}').contains(&c)) { v.busy = 1; continue; }
        if t == "No matches found" { v.look.push(0); v.at.push((y as u16, 0)); continue; }
        let id = (1..NAMES.len()).find(|&k| NAMES[k] == t).map(|k| k as i64).or((1..NAMES.len()).find(|&k| help(k) == Some(t)).map(|k| -(k as i64)));
        match id { Some(k) => { v.look.push(k); v.at.push((y as u16, k)); } None => v.look.push(999) }
    }
    let mut n = 0;
    walk(p, &mut |w| if w.has_class("option-list--option") { n += 1; if w.has_class("option-list--option-highlighted") { v.high = n; } });
    v
}
pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x9a1e77e);
    let n = if a.thorough { 6000 } else { 1200 };
    let sleepers = if a.thorough { 60 } else { 16 };
    for t in 0..n {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let line = rt.block_on(one(&mut r, t < sleepers, a.thorough));
        out.line(&line);
    }
}
async fn one(r: &mut Rng, sleeps: bool, thorough: bool) -> Value {
    let sh: Arc<Mutex<Shared>> = Default::default();
    let ros = r.chance(1, 2);
    let mut p: CommandPalette<u32> = CommandPalette::new_with_run_on_select(ros);
    let mut serials: Vec<usize> = vec![];
    let mut next = 1;
    let mut steps: Vec<Value> = vec![];
    let mut mk = |n: usize, serials: &mut Vec<usize>| -> Vec<Box<dyn Provider>> {
        serials.clear();
        (0..n).map(|_| { serials.push(next); next += 1; Box::new(Slow { serial: next - 1, sh: sh.clone() }) as Box<dyn Provider> }).collect()
    };
    let mut last = Seen { look: vec![], at: vec![], query: vec![], busy: 0, high: 0, lines: vec![] };
    let mut typed = 0;
    let len = if thorough { r.range(10, 40) } else { r.range(8, 26) };
    // some histories follow a script, with other things happening in between
    let mut plan: VecDeque<&'static str> = if sleeps { vec!["provide2", "open", "answer+", "late", "wait5", "drain", "answer0", "drain"] } else {
        match r.below(16) {
            0 => vec!["provide2", "open", "answer+", "answer", "drain", "char", "enter", "answer0", "answer0", "drain", "wait5", "drain", "enter"],
            1 => vec!["provide2", "open", "answer+", "answer+", "drain", "down", "down", "char", "answer0", "answer0", "drain", "wait5", "drain", "enter", "up"],
            2 => vec!["provide2", "open", "char", "answer+", "answer+", "close", "drain", "open", "enter"],
            3 => vec!["provide2", "open", "char", "answer+", "wait5", "answer+", "drain", "down", "click"],
            _ => vec!["provide", "open"],
        }
    }.into();
    let scripted = plan.len() > 2;
    for _ in 0..len {
        let waiting: Vec<usize> = (0..serials.len()).filter(|&i| sh.lock().unwrap().gates.get(&serials[i]).map(|g| !g.is_closed()).unwrap_or(false)).collect();
        let scripted = if scripted && !plan.is_empty() && !r.chance(1, 8) { plan.pop_front() } else if steps.len() < 2 { plan.pop_front() } else { None };
        let what = scripted.unwrap_or_else(|| {
            if !p.is_open() && r.chance(1, 2) { return "open"; }
            if !waiting.is_empty() && r.chance(1, 3) { return "answer"; }
            if !last.at.is_empty() && r.chance(1, 8) { return "click"; }
            *r.pick(&["key", "key", "key", "key", "answer", "drain", "drain", "drain", "drain", "wait", "wait", "open", "close", "provide", "beside", "restore", "submit", "tick"])
        });
        let full = what;
        let what = match what { "provide2" => "provide", "answer+" | "answer0" => "answer", "late" => "drain", "wait5" => "wait", "char" | "enter" | "down" | "up" => "key", w => w };
        let mut e = json!({"op": what});
        let ok = match what {
            "provide" => {
                let k = if full == "provide2" { 2 } else { *r.pick(&[0usize, 1, 1, 2, 2, 2, 3]) };
                e["n"] = json!(k);
                let ps = mk(k, &mut serials);
                guard(|| p.set_providers(ps))
            }
            "open" => {
                typed = 0;
                let f = if r.chance(1, 2) { r.range(0, 3) } else { -1 };
                e["f"] = json!(f);
                guard(|| if f < 0 { p.open() } else { p.open_with_focus(f as usize) })
            }
            "close" => guard(|| p.close()),
            "submit" => guard(|| p.submit()),
            "key" => {
                let k = *r.pick(&["esc", "enter", "enter", "up", "down", "down", "char", "char", "char", "back"]);
                let k = if full == "key" { k } else { full };
                let c = *r.pick(&['q', 'o', ' ', 'é']);
                // the input shows some twenty characters
                let k = if k == "char" && typed > 6 { "back" } else { k };
                if k == "char" { typed += 1; }
                e["k"] = json!(k);
                e["c"] = json!(c.to_string());
                let code = match k { "esc" => KeyCode::Esc, "enter" => KeyCode::Enter, "up" => KeyCode::Up, "down" => KeyCode::Down, "back" => KeyCode::Backspace, _ => KeyCode::Char(c) };
                guard(|| { p.on_event(code); })
            }
            "answer" => {
                let i = if waiting.is_empty() { 0 } else { *r.pick(&waiting) + 1 };
                e["i"] = json!(i);
                let m = match full { "answer+" => r.range(1, 3), "answer0" => 0, _ => *r.pick(&[0i64, 0, 1, 2, 2, 3]) };
                let hits: Vec<(usize, i64)> = (0..m).map(|_| (r.range(1, NAMES.len() as i64 - 1) as usize, r.range(1, 3))).collect();
                e["hits"] = json!(hits);
                if i > 0 {
                    let tx = sh.lock().unwrap().gates.remove(&serials[i - 1]).unwrap();
                    let _ = tx.send(hits);
                }
                Some(())
            }
            "wait" => {
                let d = 130 * if full == "wait5" { 4 } else { r.range(1, 5) };
                e["d"] = json!(d);
                tokio::time::advance(Duration::from_millis(d as u64)).await;
                Some(())
            }
            "drain" => {
                let late = full == "late";
                if late { std::thread::sleep(Duration::from_millis(280)); }
                e["late"] = json!(late as u8);
                guard(|| { e["changed"] = json!(p.drain_updates() as u8); })
            }
            "tick" => guard(|| { p.tick(); }),
            "restore" => guard(|| { e["f"] = json!(p.take_restore_focus().map(|x| x as i64).unwrap_or(-1)); }),
            "click" | "beside" => {
                let items: Vec<(u16, i64)> = last.at.iter().copied().filter(|x| x.1 >= 0).collect();
                let at = if what == "click" && !items.is_empty() { Some(r.below(items.len())) } else { None };
                // inside but on nothing, or beside it all
                let (mut y, mut i) = if r.chance(1, 2) { (H as u16 - 1, -1) } else { (H as u16 + 3, 0) };
                if let Some(k) = at { y = items[k].0; i = k as i64 + 1; }
                e["op"] = json!("click");
                e["i"] = json!(i);
                guard(|| {
                    let go = |p: &mut CommandPalette<u32>, kind| { let ev = MouseEvent { kind, column: 9, row: y, modifiers: KeyModifiers::NONE }; p.on_mouse(ev, Region::new(0, 0, W as i32, H as i32)); };
                    go(&mut p, MouseEventKind::Moved);
                    go(&mut p, MouseEventKind::Down(MouseButton::Left));
                    go(&mut p, MouseEventKind::Up(MouseButton::Left));
                })
            }
            _ => unreachable!(),
        };
        settle().await;
        let mut calls: Vec<Vec<Value>> = vec![vec![]; serials.len()];
        for (s, c) in sh.lock().unwrap().calls.drain(..) { if let Some(k) = serials.iter().position(|&x| x == s) { calls[k].push(c); } }
        e["calls"] = json!(calls);
        let seen = guard(|| {
            e["act"] = json!(p.take_pending_action().map(|a| id_of(&a)).unwrap_or(0));
            e["ev"] = json!(p.take_events().into_iter().map(|v| match v {
                CommandPaletteEvent::Opened => json!(["opened"]),
                CommandPaletteEvent::Closed { option_selected } => json!(["closed", option_selected as u8]),
                CommandPaletteEvent::OptionHighlighted(h) => {
                    let id = id_of(&h.action);
                    let good = id > 0 && h.text == NAMES[id as usize] && h.help.as_deref() == help(id as usize);
                    json!(["highlight", h.index + 1, if good { id } else { -8 }])
                }
            }).collect::<Vec<_>>());
            see(&mut p)
        });
        e["panic"] = json!((ok.is_none() || seen.is_none()) as u8);
        if let Some(s) = seen {
            e["open"] = json!(p.is_open() as u8);
            e["look"] = json!(s.look);
            e["busy"] = json!(s.busy);
            e["high"] = json!(s.high);
            e["q"] = json!(s.query);
            if std::env::var("VH_SHOW").is_ok() { println!("{}", serde_json::to_string(&e).unwrap()); for l in &s.lines { let l = l.trim_end(); if !l.is_empty() { println!("   |{}", l); } } }
            last = s;
            steps.push(e);
        } else { steps.push(e); break; }
        if ok.is_none() { break; }
    }
    json!({"ros": ros as u8, "texts": NAMES[1..].iter().map(|s| s.chars().map(|c| c.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
           "helps": (1..NAMES.len()).map(|k| help(k).is_some() as u8).collect::<Vec<_>>(), "steps": steps})
}
