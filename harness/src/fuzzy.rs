//! Drives the fuzzy matcher and the two command providers; highlighting is read back from the laid out markup.
use crate::common::*;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use textual::command::{Provider, SimpleCommand, SimpleProvider, SystemCommand, SystemCommandsProvider};
use textual::content::Content;
use textual::fuzzy::Matcher;

pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("pending"),
    }
}
const AL: &[char] = &['a', 'b', 'c', 'A', 'B', ' ', ' ', '-', '_', '.', '1', 'é', 'É', '[', ']', '\\', '中', '\u{130}', 'i', 'Σ', 'σ', 'ß'];
// the lower case of one character, on its own
fn lower(c: char) -> char {
    match c { 'A' => 'a', 'B' => 'b', 'É' => 'é', '\u{130}' => 'i', 'Σ' => 'σ', c => c }
}
fn jc(s: &[char]) -> Value {
    json!(s.iter().map(|&c| json!({"c": c as u32, "f": lower(c) as u32,
        "w": (matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | 'é' | 'É' | '中' | '\u{130}' | 'Σ' | 'σ' | 'ß')) as u8, "s": (c == ' ') as u8})).collect::<Vec<_>>())
}
fn observe(score: f32, markup: &str) -> Value {
    let c = Content::from_markup(markup).expect("highlight is valid markup");
    let mut shown = vec![];
    let mut marked = vec![];
    for s in c.lines() {
        for g in s.segments() {
            let on = g.style().map(|s| s.reverse || (s.bold && s.fg.is_some())).unwrap_or(false);
            for ch in g.text().chars() {
                shown.push(ch as u32);
                if on { marked.push(shown.len()); }
            }
        }
    }
    json!({"score": (score * 1000.0).round() as i64, "shown": shown, "marked": marked})
}
fn text(r: &mut Rng, lo: i64, hi: i64, rich: bool) -> Vec<char> {
    let k = if rich { AL.len() } else { 10 };
    (0..r.range(lo, hi)).map(|_| AL[r.below(k)]).collect()
}
/// A query: letters of the name in order (some dropped, recased, or disturbed), or anything.
fn query(r: &mut Rng, name: &[char], rich: bool) -> Vec<char> {
    if r.chance(1, 6) { return text(r, 0, 4, rich); }
    let mut q: Vec<char> = vec![];
    if r.chance(1, 3) && !name.is_empty() {
        let a = r.below(name.len());
        let b = (a + r.range(1, 4) as usize).min(name.len());
        q.extend(&name[a..b]);
    } else {
        let keep = r.range(1, 3);
        for &c in name { if q.len() < 5 && r.range(0, 3) < keep { q.push(c); } }
    }
    for c in &mut q { if r.chance(1, 6) { *c = lower(*c); } }
    if r.chance(1, 10) && !q.is_empty() { let k = r.below(q.len()); q[k] = AL[r.below(AL.len())]; }
    q
}
pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0xf022);
    let n = if a.thorough { 30000 } else { 5000 };
    for i in 0..n {
        let rich = i % 2 == 0;
        let mut steps = vec![];
        for _ in 0..4 {
            let name = text(&mut r, 0, 9, rich);
            let q = query(&mut r, &name, rich);
            let exact = r.chance(1, 3);
            let style = if r.chance(1, 3) { Some("bold red".to_string()) } else { None };
            let (qs, ns): (String, String) = (q.iter().collect(), name.iter().collect());
            let o = guard(|| {
                let m = Matcher::new(qs.clone(), style.clone(), exact);
                observe(m.match_score(&ns), &m.highlight(&ns))
            });
            let mut v = json!({"op": "match", "panic": o.is_none() as u8, "q": jc(&q), "name": jc(&name), "exact": exact as u8});
            if let Some(o) = o { v["o"] = o; }
            steps.push(v);
        }
        if i % 4 == 0 {
            let cmds: Vec<(Vec<char>, bool, bool)> = (0..r.range(0, 6)).map(|_| (text(&mut r, 1, 8, rich), r.chance(3, 4), r.chance(1, 2))).collect();
            let base = if cmds.is_empty() { vec!['a'] } else { cmds[r.below(cmds.len())].0.clone() };
            let q = query(&mut r, &base, rich);
            let qs: String = q.iter().collect();
            let mut names: Vec<String> = cmds.iter().map(|c| c.0.iter().collect()).collect();
            let sys = r.chance(1, 2);
            let style = if r.chance(1, 2) { Some("bold red".to_string()) } else { None };
            let res = guard(|| {
                let mut p: Box<dyn Provider> = if sys {
                    Box::new(SystemCommandsProvider::new(cmds.iter().enumerate().map(|(k, c)| {
                        let s = SystemCommand::new(names[k].clone(), format!("act{}", k + 1)).discoverable(c.1);
                        if c.2 { s.with_help(format!("help{}", k + 1)) } else { s }
                    }).collect()))
                } else {
                    Box::new(SimpleProvider::new(cmds.iter().enumerate().map(|(k, c)| {
                        let s = SimpleCommand::new(names[k].clone(), format!("act{}", k + 1)).discoverable(c.1);
                        if c.2 { s.with_help(format!("help{}", k + 1)) } else { s }
                    }).collect()))
                };
                if let Some(s) = &style { p.set_match_style(s.clone()); }
                let id = |action: &str, text: &str, help: &Option<String>| -> i64 {
                    let k: usize = action.strip_prefix("act").and_then(|s| s.parse().ok()).unwrap_or(0);
                    if k == 0 || k > cmds.len() || text != names[k - 1] || *help != cmds[k - 1].2.then(|| format!("help{k}")) { -1 } else { k as i64 }
                };
                let hits: Vec<Value> = now(p.search(&qs)).iter().map(|h| json!({"id": id(&h.action, &h.text, &h.help), "o": observe(h.score, &h.match_display)})).collect();
                let disc: Vec<i64> = now(p.discover()).iter().map(|h| {
                    let shown: String = Content::from_markup(&h.display).map(|c| c.text().to_string()).unwrap_or_default();
                    if shown == h.text { id(&h.action, &h.text, &h.help) } else { -2 }
                }).collect();
                (hits, disc)
            });
            let jcmds: Vec<Value> = {
                let all = names.clone();
                names.sort();
                cmds.iter().zip(&all).map(|(c, s)| json!({"name": jc(&c.0), "disc": c.1 as u8, "rank": names.iter().position(|x| x == s)})).collect()
            };
            let mut v = json!({"op": "search", "panic": res.is_none() as u8, "cmds": jcmds, "q": jc(&q)});
            let mut d = json!({"op": "discover", "panic": res.is_none() as u8, "cmds": jcmds, "sorted": sys as u8});
            if let Some((h, x)) = res { v["hits"] = json!(h); d["hits"] = json!(x); }
            steps.push(v);
            steps.push(d);
        }
        out.line(&json!({"steps": steps}));
    }
}
