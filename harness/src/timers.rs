//! Posting, timers and intervals through the real contexts, on tokio's paused clock.
use crate::common::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use textual::tree::WidgetTree;
use textual::{AppContext, Container, EventContext, IntervalHandle, MessageEnvelope, MountContext};
use tokio::sync::mpsc;

type M = (usize, usize);
async fn settle() { for _ in 0..40 { tokio::task::yield_now().await; } }
fn drain(rx: &mut mpsc::UnboundedReceiver<MessageEnvelope<M>>) -> Value {
    let mut v = vec![];
    while let Ok(e) = rx.try_recv() { v.push(json!({"id": e.message.0, "n": e.message.1, "from": format!("{}/{}", e.sender_id.as_deref().unwrap_or(""), e.sender_type)})); }
    json!(v)
}

async fn case(r: &mut Rng) -> Vec<Value> {
    let (tx, mut rx) = mpsc::unbounded_channel::<MessageEnvelope<M>>();
    let mut tree: WidgetTree<M> = WidgetTree::new(Box::new(Container::new(vec![])));
    let mut steps = vec![];
    let mut next = 0usize;
    // now and then everything is a thousand (or many thousand) times slower
    let slow = *r.pick(&[1i64, 1, 1, 1, 1, 977, 70_001]);
    let mut handles: Vec<(usize, IntervalHandle)> = vec![];
    for _ in 0..r.range(4, 24) {
        let who = r.below(4);
        let from = ["/AppContext", "save/Button", "/Timer", "/AppContext"][who].to_string();
        let ctx = AppContext::new(tx.clone());
        let ctx = match who { 1 => ctx.with_sender_info(Some("save"), "Button"), 2 => ctx.with_sender_info(Some("old"), "Old").with_sender_info(None, "Timer"), _ => ctx };
        let via = r.below(4);
        let mut e;
        match r.below(9) {
            0 => {
                next += 1; let m = (next, 1);
                match via { 0 => ctx.post(m), 1 => EventContext::new(ctx, &mut tree).post(m), 2 => MountContext::new(ctx, &mut tree).post(m), _ => { ctx.clone().post(m) } }
                e = json!({"op":"open","kind":"post","from":from,"per":0});
            }
            1 => {
                let n = r.range(2, 6) as usize;
                for _ in 0..n { next += 1; ctx.post((next, 1)); }
                e = json!({"op":"burst","count":n,"from":from});
            }
            2 | 3 => {
                next += 1; let m = (next, 1);
                let d = slow * *r.pick(&[0i64, 1, 1, 2, 3, 5, 8, 20, 100]);
                let dur = Duration::from_millis(d as u64);
                match via { 0 => ctx.set_timer(dur, m), 1 => EventContext::new(ctx, &mut tree).set_timer(dur, m), 2 => MountContext::new(ctx, &mut tree).set_timer(dur, m), _ => { let c = ctx.clone(); drop(ctx); c.set_timer(dur, m) } }
                e = json!({"op":"open","kind":"timer","from":from,"per":d});
            }
            4 | 5 => {
                next += 1; let id = next;
                let d = slow * *r.pick(&[1i64, 2, 2, 3, 5, 7, 30]);
                let dur = Duration::from_millis(d as u64);
                let n = Arc::new(AtomicUsize::new(0));
                let f = move || (id, n.fetch_add(1, Ordering::SeqCst) + 1);
                let h = match via { 0 => ctx.set_interval(dur, f), 1 => EventContext::new(ctx, &mut tree).set_interval(dur, f), 2 => MountContext::new(ctx, &mut tree).set_interval(dur, f), _ => ctx.clone().set_interval(dur, f) };
                handles.push((id, h));
                e = json!({"op":"open","kind":"interval","from":from,"per":d});
            }
            6 if !handles.is_empty() => {
                let k = r.below(handles.len());
                let cut = r.chance(1, 2);
                let d = if cut { slow * r.range(1, 30) } else { 0 };
                let mut gone = None;
                let id = handles[k].0;
                match r.below(3) { 0 => handles[k].1.cancel(), 1 => { handles[k].1.cancel(); handles[k].1.cancel(); } _ => { gone = Some(handles.swap_remove(k)); } }
                drop(gone);
                if cut { tokio::time::advance(Duration::from_millis(d as u64)).await; }
                e = if cut { json!({"op":"cut","id":id,"d":d}) } else { json!({"op":"cancel","id":id}) };
            }
            _ => {
                let d = slow * *r.pick(&[1i64, 1, 1, 1, 2, 3, 10, 40]);
                tokio::time::advance(Duration::from_millis(d as u64)).await;
                e = json!({"op":"advance","d":d});
            }
        }
        settle().await;
        e["rec"] = drain(&mut rx);
        e["panic"] = json!(0);
        steps.push(e);
    }
    steps
}

pub fn run(a: &Args, out: &mut Out) {
    let mut r = Rng::new(a.seed ^ 0x71);
    for _ in 0..if a.thorough { 8000 } else { 1500 } {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let steps = guard(|| rt.block_on(case(&mut r))).unwrap_or_else(|| vec![json!({"op":"open","panic":1})]);
        out.line(&json!({"steps": steps}));
    }
}
