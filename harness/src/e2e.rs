//! The whole application on a pseudo terminal.  The parent plays the user and the terminal; the child (the same
//! binary, first argument `e2e-child`) runs a real `App` whose widgets and callbacks report on the same stream the
//! frames are written to, as OSC strings, so that reports and frames are totally ordered.
use crate::common::*;
use serde_json::{json, Value};
use std::cell::{Cell as C, RefCell};
use std::io::Write;
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::time::{Duration, Instant};
use tcss::types::RgbaColor;
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::canvas::{Canvas, Region, Size, TextAttributes};
use textual::{App, CommandPaletteEvent, EventContext, KeyCode, MessageEnvelope, MountContext, MouseEvent, MouseEventKind, Widget};

// ---------------------------------------------------------------- child
fn log(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = write!(o, "\x1b]9;{s}\x07");
    let _ = o.flush();
}
#[derive(Clone, Debug)]
pub enum Msg { Hit, Click, Note(u32) }

struct Cell { i: usize, name: String, n: u32, can: bool, tip: bool, vis: bool, dis: bool, foc: bool, hov: bool, dirty: bool, style: ComputedStyle, act: RefCell<Vec<String>> }
impl Widget<Msg> for Cell {
    fn render(&self, c: &mut Canvas, r: Region) {
        let k = self.style.color.as_ref().map(|c| c.r).unwrap_or(0);
        let t = format!("{}:{}:{}{}{}", self.i, self.n, if self.foc { 'F' } else { '.' }, if self.hov { 'H' } else { '.' }, (b'a' + k.min(25)) as char);
        c.put_str(r.x, r.y, &t, Some(RgbaColor::rgb(9, 9, 9)), None, TextAttributes::default());
    }
    fn desired_size(&self) -> Size { Size::new(u16::MAX, 1) }
    fn get_meta(&self) -> WidgetMeta { WidgetMeta { type_name: "Cell", type_names: if self.i == 1 { vec!["Status", "Cell", "Widget", "DOMNode"] } else { vec!["Cell", "Widget", "DOMNode"] }, id: Some(self.name.clone()), classes: vec![], states: self.get_state() } }
    // the application's style sheet overrides both, a derived type what it derives from
    fn default_css(&self) -> &'static str { if self.i == 1 { "Status { color: #0c0c0c; }" } else { "Cell { color: #010101; height: 2; }" } }
    fn get_state(&self) -> WidgetStates {
        let mut s = WidgetStates::empty();
        if self.foc { s |= WidgetStates::FOCUS }
        if self.hov { s |= WidgetStates::HOVER }
        s
    }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_inline_style(&mut self, _: StyleOverride) {}
    fn is_dirty(&self) -> bool { self.dirty }
    fn mark_dirty(&mut self) { self.dirty = true }
    fn mark_clean(&mut self) { self.dirty = false }
    fn is_visible(&self) -> bool { self.vis }
    fn set_visible(&mut self, v: bool) { self.vis = v; self.dirty = true }
    fn is_disabled(&self) -> bool { self.dis }
    fn set_disabled(&mut self, d: bool) { self.dis = d; self.dirty = true }
    fn is_focusable(&self) -> bool { self.can && self.vis && !self.dis }
    fn set_focus(&mut self, f: bool) { if self.foc != f { self.foc = f; self.dirty = true } }
    fn is_focused(&self) -> bool { self.foc }
    fn clear_hover(&mut self) { if self.hov { self.hov = false; self.dirty = true } }
    fn set_hover(&mut self, h: bool) -> bool { let c = self.hov != h; self.hov = h; self.dirty |= c; c }
    fn tooltip(&self) -> Option<String> { self.tip.then(|| format!("[tip{}]", self.i)) }
    fn id(&self) -> Option<&str> { Some(&self.name) }
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> { Some(self) }
    fn sender_info(&self) -> textual::widget::SenderInfo { textual::widget::SenderInfo { id: Some(self.name.clone()), type_name: "Cell" } }
    fn take_pending_action(&self) -> Option<String> { let mut v = self.act.borrow_mut(); if v.is_empty() { None } else { Some(v.remove(0)) } }
    fn on_resize(&mut self, s: Size) { if self.i == 1 { log(&format!("z:{}:{}", s.width, s.height)) } }
    fn on_event(&mut self, k: KeyCode) -> Option<Msg> {
        log(&format!("w:{}:{}", self.i, kname(k)));
        match k {
            KeyCode::Char('a') => { self.n += 1; self.dirty = true; Some(Msg::Hit) }
            KeyCode::Char('s') => { self.n += 1; self.dirty = true; None }
            KeyCode::Char('x') => { self.act.borrow_mut().push(format!("act{}", self.i)); None }
            KeyCode::Char('e') => { self.act.borrow_mut().push(format!("act{}", self.i)); Some(Msg::Hit) }
            KeyCode::Char('d') => { self.act.borrow_mut().push("nothing".into()); None }
            KeyCode::Char('b') => { self.act.borrow_mut().push("app.bell".into()); None }
            KeyCode::Char('z') => { self.act.borrow_mut().push("app.quit".into()); None }
            _ => None,
        }
    }
    fn on_mouse(&mut self, e: MouseEvent, r: Region) -> Option<Msg> {
        let (x, y) = (e.column as i32, e.row as i32);
        if !r.contains_point(x, y) { return None; }
        let k = match e.kind { MouseEventKind::Down(_) => "down", MouseEventKind::Up(_) => "up", MouseEventKind::Moved => "move", MouseEventKind::Drag(_) => "drag", MouseEventKind::ScrollDown => "wheel", _ => "other" };
        log(&format!("y:{}:{}:{}:{}", self.i, k, x - r.x, y - r.y));
        match e.kind {
            MouseEventKind::Down(_) => { self.n += 1; self.dirty = true; Some(Msg::Click) }
            MouseEventKind::Up(_) => { self.act.borrow_mut().push(format!("act{}", self.i)); None }
            MouseEventKind::Moved => { self.set_hover(true); None }
            MouseEventKind::ScrollDown => { self.n += 1; self.dirty = true; None }
            _ => None,
        }
    }
}
fn kname(k: KeyCode) -> String {
    match k { KeyCode::Char(c) => c.to_string(), KeyCode::Tab => "tab".into(), KeyCode::BackTab => "backtab".into(), KeyCode::Esc => "esc".into(), KeyCode::Enter => "enter".into(), KeyCode::Up => "up".into(), KeyCode::Down => "down".into(), KeyCode::Left => "left".into(), KeyCode::Right => "right".into(), KeyCode::Home => "home".into(), KeyCode::End => "end".into(), KeyCode::PageUp => "pageup".into(), KeyCode::PageDown => "pagedown".into(), _ => "other".into() }
}

struct E<const K: usize> { cfg: Value, cnt: u32, af: usize, re: C<bool>, hb: &'static [(u16, &'static str)], vb: &'static [(u16, &'static str)] }
const STYLES: &str = "Cell { height: 1; } Cell:focus { color: #020202; } Cell:hover { color: #030303; } #filler { height: 1fr; }
.-narrow #status { color: #040404; } .-mid #status { color: #050505; } .-wide #status { color: #060606; }
.-short #filler { color: #070707; } .-tall #filler { color: #080808; } .-huge #filler { color: #090909; }";
impl<const K: usize> E<K> {
    /// the first and the last cell each ask for an action
    fn both(&self, ctx: &mut EventContext<Msg>) {
        for id in ["#status", "#filler"] { ctx.query_one_as::<Cell, _, _>(id, |c| { let a = format!("act{}", c.i); c.act.borrow_mut().push(a) }); }
    }
    fn show(&self, ctx: &mut EventContext<Msg>) {
        let n = self.cnt;
        ctx.query_one_as::<Cell, _, _>("#status", |c| { c.n = n; c.dirty = true; });
    }
}
impl<const K: usize> App for E<K> {
    type Message = Msg;
    const CSS: &'static str = if K == 2 { "Cell { color: " } else { STYLES };
    const ENABLE_COMMAND_PALETTE: bool = K == 1 || K == 3;
    const COMMAND_PALETTE_BINDING: &'static str = if K == 3 { "ctrl+o, alt+k,ctrl+SHIFT+Home , control+Space,meta+PageDown, super + Enter,,backslash,Y,ctrl+end,alt+Up,ctrl+down,alt+left,ctrl+right,ctrl+pageup,ctrl+pp,alt,shift+Esc" } else { "ctrl+p" };
    fn compose(&self) -> Vec<Box<dyn Widget<Msg>>> {
        let cells = self.cfg["cells"].as_array().unwrap();
        let n = cells.len();
        let off = |k: &str, i: usize| cells[i][k] == 1;
        (0..n).map(|i| Box::new(Cell { i: i + 1, name: if i == 0 { "status".into() } else if i == n - 1 { "filler".into() } else { format!("c{}", i + 1) }, n: if i == 0 { self.cnt } else { 0 },
            can: off("can", i), tip: off("tip", i), vis: true, dis: false, foc: false, hov: false, dirty: true, style: ComputedStyle::default(), act: Default::default() }) as Box<dyn Widget<Msg>>).collect()
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) { log("mount"); if self.cfg["mount"] == 1 { ctx.post(Msg::Note(1)); } }
    fn should_quit(&self) -> bool { log("i"); QUIT.with(|q| q.get()) }
    fn request_quit(&mut self) { QUIT.with(|q| q.set(true)) }
    fn focus_index(&self) -> usize { self.af }
    fn needs_recompose(&self) -> bool { self.re.take() }
    fn horizontal_breakpoints(&self) -> &'static [(u16, &'static str)] { self.hb }
    fn vertical_breakpoints(&self) -> &'static [(u16, &'static str)] { self.vb }
    fn tooltip_delay(&self) -> Duration { Duration::from_millis(self.cfg["delay"].as_u64().unwrap()) }
    fn get_system_commands(&self) -> Vec<textual::SystemCommand> { (1..=3).map(|i| textual::SystemCommand::new(format!("Command {i}"), format!("cmd{i}"))).collect() }
    fn on_command_palette_event(&mut self, e: CommandPaletteEvent, _: &mut EventContext<Msg>) {
        match e {
            CommandPaletteEvent::Opened => log("p:open"),
            CommandPaletteEvent::Closed { option_selected } => log(if option_selected { "p:chosen" } else { "p:closed" }),
            CommandPaletteEvent::OptionHighlighted(h) => log(&format!("h:{}:{}", h.index, h.action)),
        }
    }
    fn handle_message(&mut self, m: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        let what = match m.message { Msg::Hit => "hit".into(), Msg::Click => "click".into(), Msg::Note(k) => format!("note{k}") };
        log(&format!("m:{}:{}:{}", what, m.sender_id.clone().unwrap_or_default(), m.sender_type));
        self.cnt += 1;
        self.show(ctx);
        if m.sender_id.as_deref() == Some("filler") { self.both(ctx); }
        match m.message { Msg::Note(3) => self.re.set(true), Msg::Note(4) => self.af = (self.af + 1) % 4, _ => {} }
    }
    fn on_action(&mut self, a: &str, ctx: &mut EventContext<Msg>) -> bool {
        log(&format!("a:{a}"));
        if a.starts_with("act") || a.starts_with("cmd") { self.cnt += 1; self.show(ctx); return true; }
        false
    }
    fn on_key(&mut self, k: KeyCode, ctx: &mut EventContext<Msg>) {
        log(&format!("k:{}", kname(k)));
        match k {
            KeyCode::Char('r') => { self.cnt += 1; self.re.set(true) }
            KeyCode::Char('f') => self.af = (self.af + 1) % 4,
            KeyCode::Char('m') => ctx.post(Msg::Note(1)),
            KeyCode::Char('M') => { ctx.post(Msg::Note(1)); ctx.post(Msg::Note(2)) }
            KeyCode::Char('R') => ctx.post(Msg::Note(3)),
            KeyCode::Char('G') => ctx.post(Msg::Note(4)),
            KeyCode::Char('t') => ctx.set_timer(Duration::from_millis(2), Msg::Note(5)),
            KeyCode::Char('h') => { ctx.query_one_as::<Cell, _, _>("#c2", |c| { let v = !c.vis; c.set_visible(v) }); }
            KeyCode::Char('j') => { ctx.query_one_as::<Cell, _, _>("#c3", |c| { let v = !c.dis; c.set_disabled(v) }); }
            KeyCode::Char('g') => { ctx.focus_by_id("c3"); }
            KeyCode::Char('u') => { self.cnt += 10; self.show(ctx) }
            KeyCode::Char('w') => self.both(ctx),
            KeyCode::Char('q') => self.request_quit(),
            _ => {}
        }
    }
}
thread_local! { static QUIT: C<bool> = const { C::new(false) }; }
fn leak(v: &Value) -> &'static [(u16, &'static str)] {
    Box::leak(v.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as u16, &*Box::leak(p[1].as_str().unwrap().to_string().into_boxed_str()))).collect::<Vec<_>>().into_boxed_slice())
}
fn go<const K: usize>(cfg: Value) -> textual::Result<()> {
    let (hb, vb) = (leak(&cfg["hb"]), leak(&cfg["vb"]));
    let rt = cfg["rt"].as_u64().unwrap();
    let mut app = E::<K> { af: cfg["af"].as_u64().unwrap() as usize, cfg, cnt: 0, re: C::new(false), hb, vb };
    let b = |multi: bool| if multi { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap() } else { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() };
    match rt {
        0 => app.run(),
        1 => b(false).block_on(async { app.run_async().await }),
        2 => b(true).block_on(async { app.run() }),
        _ => b(false).block_on(async { app.run() }),
    }
}
pub fn child(cfg: &str) {
    let cfg: Value = serde_json::from_str(cfg).unwrap();
    let r = match cfg["k"].as_u64().unwrap() { 0 => go::<0>(cfg), 1 => go::<1>(cfg), 2 => go::<2>(cfg), _ => go::<3>(cfg) };
    log(&format!("end:{}", if r.is_ok() { "ok" } else { "err" }));
}

// ---------------------------------------------------------------- terminal
struct Term { w: usize, h: usize, g: Vec<Vec<char>>, x: usize, y: usize, alt: bool, cur: bool, mouse: Vec<u32>, bell: u32, odd: u32, buf: Vec<u8>, log: Vec<String>, marks: u32, since: u32 }
impl Term {
    fn new(w: usize, h: usize) -> Term { Term { w, h, g: vec![vec!['?'; w]; h], x: 0, y: 0, alt: false, cur: true, mouse: vec![], bell: 0, odd: 0, buf: vec![], log: vec![], marks: 0, since: 0 } }
    fn resize(&mut self, w: usize, h: usize) { self.w = w; self.h = h; self.g = vec![vec!['?'; w]; h]; }
    fn feed(&mut self, d: &[u8]) {
        self.buf.extend_from_slice(d);
        let b = std::mem::take(&mut self.buf);
        let mut i = 0;
        while i < b.len() {
            if b[i] == 0x1b {
                if i + 1 >= b.len() { break; }
                if b[i + 1] == b']' {
                    let Some(e) = b[i..].iter().position(|&c| c == 7) else { break };
                    let s = String::from_utf8_lossy(&b[i + 2..i + e]).to_string();
                    let s = s.trim_start_matches("9;").to_string();
                    if s == "i" { self.marks += 1; self.since += 1 } else { self.since = 0; self.log.push(s) }
                    i += e + 1;
                } else if b[i + 1] == b'[' {
                    let Some(e) = b[i + 2..].iter().position(|&c| (0x40..=0x7e).contains(&c)) else { break };
                    let p = String::from_utf8_lossy(&b[i + 2..i + 2 + e]).to_string();
                    self.csi(&p, b[i + 2 + e]);
                    i += e + 3;
                } else { self.odd += 1; i += 2 }
            } else if b[i] == 7 { self.bell += 1; i += 1 }
            else if b[i] == b'\r' { self.x = 0; i += 1 }
            else if b[i] == b'\n' { self.y += 1; i += 1 }
            else {
                let n = if b[i] < 0x80 { 1 } else if b[i] < 0xe0 { 2 } else if b[i] < 0xf0 { 3 } else { 4 };
                if i + n > b.len() { break; }
                let c = std::str::from_utf8(&b[i..i + n]).ok().and_then(|s| s.chars().next()).unwrap_or('\u{fffd}');
                if self.x >= self.w { self.x = 0; self.y += 1 }
                if self.x < self.w && self.y < self.h { self.g[self.y][self.x] = c } else { self.odd += 1 }
                self.x += 1;
                i += n;
            }
        }
        self.buf = b[i..].to_vec();
    }
    fn csi(&mut self, p: &str, f: u8) {
        let nums = || p.trim_start_matches('?').split(';').map(|x| x.parse::<u32>().unwrap_or(0)).collect::<Vec<_>>();
        match f {
            b'H' => { let n = nums(); self.y = n.first().copied().unwrap_or(1).max(1) as usize - 1; self.x = n.get(1).copied().unwrap_or(1).max(1) as usize - 1 }
            b'm' => {}
            b'J' => for r in self.g.iter_mut() { r.fill(' ') },
            b'h' | b'l' if p.starts_with('?') => for n in nums() {
                let on = f == b'h';
                match n { 1049 => { self.alt = on; if on { for r in self.g.iter_mut() { r.fill('?') } } } 25 => self.cur = on, 1000 | 1002 | 1003 | 1006 | 1015 => { self.mouse.retain(|m| *m != n); if on { self.mouse.push(n) } } _ => {} }
            },
            _ => self.odd += 1,
        }
    }
}
fn winsize(w: usize, h: usize) -> libc::winsize { libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 } }
struct Sess { fd: i32, slave: i32, child: std::process::Child, t: Term, term0: Vec<u8>, eof: bool }
fn attrs(fd: i32) -> Vec<u8> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        let mut v = vec![];
        for f in [t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag] { v.extend_from_slice(&f.to_le_bytes()); }
        v
    }
}
const WAIT: Duration = Duration::from_secs(20);
impl Sess {
    fn new(cfg: &Value, w: usize, h: usize) -> Sess {
        unsafe {
            let (mut m, mut s) = (0, 0);
            let ws = winsize(w, h);
            assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws), 0, "openpty");
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
            let term0 = attrs(s);
            let dup = || std::process::Stdio::from(std::fs::File::from_raw_fd(libc::dup(s)));
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("e2e-child").arg(cfg.to_string()).stdin(dup()).stdout(dup()).stderr(std::process::Stdio::null()).env("TERM", "xterm-256color").env_remove("NO_COLOR");
            c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::setsid(); libc::ioctl(0, libc::TIOCSCTTY as _, 0); Ok(()) });
            let child = c.spawn().expect("spawn");
            Sess { fd: m, slave: s, child, t: Term::new(w, h), term0, eof: false }
        }
    }
    fn send(&self, b: &[u8]) { unsafe { libc::write(self.fd, b.as_ptr() as _, b.len()); } }
    /// read what is there, waiting up to `ms`
    fn pump(&mut self, ms: i32) {
        unsafe {
            let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, ms) > 0 {
                let mut b = [0u8; 65536];
                let n = libc::read(self.fd, b.as_mut_ptr() as _, b.len());
                if n > 0 { self.t.feed(&b[..n as usize]) } else { self.eof = true }
            }
        }
    }
    fn wait(&mut self, ok: impl Fn(&[String]) -> bool) {
        let t0 = Instant::now();
        while !ok(&self.t.log) { if t0.elapsed() > WAIT || self.eof || self.gone() { return; } self.pump(20); }
    }
    /// wait until the reports satisfy `ok`, then until two more turns of the loop have begun
    fn sync(&mut self, ok: impl Fn(&[String]) -> bool) -> bool {
        let t0 = Instant::now();
        while !ok(&self.t.log) { if t0.elapsed() > WAIT || self.eof || self.gone() { return false; } self.pump(20); }
        self.settle()
    }
    fn gone(&mut self) -> bool { if matches!(self.child.try_wait(), Ok(Some(_))) { for _ in 0..3 { self.pump(5); } true } else { false } }
    fn settle(&mut self) -> bool {
        let t0 = Instant::now();
        // the loop writes a mark at the start of each turn, before it draws: after the third mark the second turn's frame is out
        let goal = self.t.marks + 3;
        while self.t.marks < goal {
            if t0.elapsed() > WAIT || self.eof || self.gone() { return false; }
            self.send(b"\x1b[I");
            self.pump(3);
        }
        true
    }
    /// wait for the child to end
    fn end(&mut self) -> bool {
        let t0 = Instant::now();
        loop {
            if matches!(self.child.try_wait(), Ok(Some(_))) { break; }
            if t0.elapsed() > WAIT { return false; }
            self.pump(10);
        }
        for _ in 0..20 { self.pump(2); }
        true
    }
    fn modes(&self) -> Value { json!({"alt": self.t.alt as u8, "cur": self.t.cur as u8, "mouse": (!self.t.mouse.is_empty()) as u8, "raw": (attrs(self.slave) != self.term0) as u8}) }
    fn rows(&self) -> Value {
        let mut rows = vec![];
        let mut stray = 0;
        let mut tip = json!([]);
        for (y, r) in self.t.g.iter().enumerate() {
            let s: String = r.iter().collect();
            let mut s = s.trim_end().to_string();
            if let Some(k) = s.find("[tip") { let e = s[k..].find(']').map(|e| k + e + 1).unwrap_or(s.len()); tip = json!([s.get(k + 4..e - 1).and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1), k, y]); s = format!("{}{}", &s[..k], &s[e..]).trim_end().to_string(); }
            if s.is_empty() { continue; }
            let p: Vec<&str> = s.split(':').collect();
            match (p.len(), p.first().and_then(|v| v.parse::<i64>().ok()), p.get(1).and_then(|v| v.parse::<i64>().ok()), p.get(2).map(|v| v.as_bytes())) {
                (3, Some(i), Some(n), Some(b)) if b.len() == 3 => rows.push(json!([y, i, n, (b[0] == b'F') as u8, (b[1] == b'H') as u8, b[2] as i64 - 97])),
                _ => stray += 1,
            }
        }
        json!({"rows": rows, "stray": stray, "tip": tip})
    }
    fn take(&mut self) -> Vec<String> { std::mem::take(&mut self.t.log) }
}
impl Drop for Sess { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); unsafe { libc::close(self.fd); libc::close(self.slave); } } }

// ---------------------------------------------------------------- user
fn keybytes(k: &str) -> Vec<u8> { match k { "tab" => b"\t".to_vec(), "backtab" => b"\x1b[Z".to_vec(), "esc" => b"\x1b".to_vec(), "enter" => b"\r".to_vec(), "up" => b"\x1b[A".to_vec(), c => c.as_bytes().to_vec() } }
fn mousebytes(k: &str, x: usize, y: usize) -> Vec<u8> {
    let (b, e) = match k { "down" => (0, 'M'), "up" => (0, 'm'), "move" => (35, 'M'), "drag" => (32, 'M'), _ => (65, 'M') };
    format!("\x1b[<{b};{};{}{e}", x + 1, y + 1).into_bytes()
}
fn count(l: &[String], p: &str) -> usize { l.iter().filter(|s| s.starts_with(p)).count() }

type Chord = (&'static [u8], &'static [&'static str], &'static str, bool);
const ONE: &[Chord] = &[(b"\x10", &["ctrl"], "p", true), (b"\x10", &["ctrl"], "p", true), (b"\x10", &["ctrl"], "p", true), (b"p", &[], "p", false), (b"\x1bp", &["alt"], "p", false), (b"\x1b\x10", &["ctrl", "alt"], "p", false)];
const MANY: &[Chord] = &[
    (b"\x0f", &["ctrl"], "o", true), (b"\x1b\x0f", &["ctrl", "alt"], "o", false), (b"\x1bk", &["alt"], "k", true), (b"\x1bK", &["alt", "shift"], "K", true), (b"k", &[], "k", false),
    (b"\x1b[1;6H", &["ctrl", "shift"], "home", true), (b"\x1b[1;5H", &["ctrl"], "home", false), (b"\x1b[1;2H", &["shift"], "home", false), (b"\x1b[H", &[], "home", false), (b"\x1b[1;8H", &["ctrl", "alt", "shift"], "home", false),
    (b"\x00", &["ctrl"], " ", true), (b" ", &[], " ", false), (b"\x1b[6;3~", &["alt"], "pagedown", true), (b"\x1b[6;4~", &["alt", "shift"], "pagedown", true), (b"\x1b[6~", &[], "pagedown", false),
    (b"\x1b\r", &["alt"], "enter", true), (b"\r", &[], "enter", false), (b"\\", &[], "\\", true), (b"y", &[], "y", true), (b"Y", &["shift"], "Y", true), (b"\x1by", &["alt"], "y", false), (b"\x19", &["ctrl"], "y", false),
    (b"\x1b[1;5F", &["ctrl"], "end", true), (b"\x1b[1;6F", &["ctrl", "shift"], "end", true), (b"\x1b[F", &[], "end", false), (b"\x1b[1;3A", &["alt"], "up", true), (b"\x1b[1;5A", &["ctrl"], "up", false), (b"\x1b[A", &[], "up", false),
    (b"\x1b[1;5B", &["ctrl"], "down", true), (b"\x1b[B", &[], "down", false), (b"\x1b[1;3D", &["alt"], "left", true), (b"\x1b[1;5D", &["ctrl"], "left", false), (b"\x1b[1;5C", &["ctrl"], "right", true), (b"\x1b[1;3C", &["alt"], "right", false),
    (b"\x1b[5;5~", &["ctrl"], "pageup", true), (b"\x1b[5;7~", &["ctrl", "alt"], "pageup", false), (b"\x10", &["ctrl"], "p", false),
];

/// one session; `None` if the terminal could not be had
fn case(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let nb = r.range(1, 4) as usize;
    let mut cells = vec![json!({"can":0,"tip":r.chance(1, 4) as u8})];
    for i in 0..nb { cells.push(json!({"can": (i + 1 == nb || r.chance(3, 4)) as u8, "tip": r.chance(1, 2) as u8})); }
    cells.push(json!({"can":0,"tip":0}));
    let tips = r.chance(1, 3);
    let k = match r.below(12) { 0..=5 => 0, 6 | 7 => 1, 8..=10 => 3, _ => if r.chance(1, 3) { 2 } else { 0 } };
    let bp = |r: &mut Rng, names: [&str; 3], sizes: &[i64]| -> Value {
        match r.below(4) {
            0 => json!([]),
            1 => json!([[0, names[0]], [*r.pick(sizes), names[2]]]),
            _ => Value::Array((0..r.range(1, 3)).map(|_| { let n = *r.pick(&names); json!([*r.pick(sizes), n]) }).collect()),
        }
    };
    let hb = bp(&mut r, ["-narrow", "-mid", "-wide"], &[0, 40, 41, 60, 61, 80]);
    let vb = bp(&mut r, ["-short", "-tall", "-huge"], &[0, 12, 13, 20, 24]);
    let size = |r: &mut Rng| (*r.pick(&[39usize, 40, 41, 59, 60, 61, 80, 100]), *r.pick(&[11usize, 12, 13, 19, 20, 24]));
    let (mut w, mut h) = size(&mut r);
    let (w0, h0) = (w, h);
    let rt = match r.below(12) { 0 => 1, 1 => 2, 2 => if r.chance(1, 3) { 3 } else { 1 }, _ => 0 };
    let mount = r.chance(1, 4);
    let b = |m: &[&str], k: &str| json!({"mods": m, "key": k});
    let bind = match k {
        1 => json!([b(&["ctrl"], "p")]),
        3 => json!([b(&["ctrl"], "o"), b(&["alt"], "k"), b(&["ctrl", "shift"], "home"), b(&["ctrl"], " "), b(&["alt"], "pagedown"), b(&["alt"], "enter"), b(&[], "\\"), b(&[], "y"), b(&["ctrl"], "end"),
            b(&["alt"], "up"), b(&["ctrl"], "down"), b(&["alt"], "left"), b(&["ctrl"], "right"), b(&["ctrl"], "pageup"), b(&["shift"], "esc")]),
        _ => json!([]),
    };
    let cfg = json!({"cells": cells, "k": k, "hb": hb, "vb": vb, "rt": rt, "af": r.below(3), "delay": if tips { 0 } else { 3_600_000 }, "mount": mount as u8, "bind": bind});
    let mut s = Sess::new(&cfg, w, h);
    let mut steps: Vec<Value> = vec![];
    let base = |s: &mut Sess, ok: bool| { let l = s.take(); let mut v = json!({"log": l, "late": (!ok) as u8, "m": s.modes(), "bell": s.t.bell, "odd": s.t.odd}); v["scr"] = s.rows(); v };
    if k == 2 || rt == 3 {
        let ok = s.end();
        let mut e = base(&mut s, ok); e["op"] = json!("refused");
        steps.push(e);
        return json!({"cfg": cfg, "w": w, "h": h, "steps": steps});
    }
    let ok = s.sync(|l| count(l, "mount") > 0 && (!mount || count(l, "m:note") > 0));
    let mut e = base(&mut s, ok); e["op"] = json!("start");
    steps.push(e);
    let n = r.range(8, 26);
    let (mut hid, mut dis) = (false, false);
    let mut open = false;
    let mut pos = (20usize, 0usize);
    let mut at = (0usize, 0usize);
    let plain = ["a", "s", "x", "e", "d", "b", "tab", "backtab", "f", "g", "u", "esc", "enter", "up", "v", "r", "w"];
    for i in 0..n {
        if !ok || !s.t.odd.eq(&0) { break; }
        if s.gone() { break; }
        let last = i + 1 == n;
        let e;
        if open {
            match r.below(6) {
                0 | 1 => {
                    s.send(b"\x1b");
                    let ok = s.sync(|l| count(l, "p:") > 0);
                    let mut v = base(&mut s, ok); v["op"] = json!("palette"); v["how"] = json!("esc"); e = v; open = false;
                }
                2 => {
                    // the first command is highlighted once the results are in
                    s.send(b"\r");
                    let ok = s.sync(|l| count(l, "p:") > 0);
                    let mut v = base(&mut s, ok); v["op"] = json!("palette"); v["how"] = json!("enter"); e = v; open = false;
                }
                3 => {
                    s.send(&mousebytes("down", w - 1, 0));
                    let ok = s.sync(|l| count(l, "p:") > 0);
                    let mut v = base(&mut s, ok); v["op"] = json!("palette"); v["how"] = json!("outside"); e = v; open = false;
                    // the release that follows belongs to the screen again
                }
                _ => {
                    let k = *r.pick(&["tab", "backtab"]);
                    s.send(&keybytes(k));
                    let mut v = json!({"op":"inside","k":k}); v["log"] = json!([]); e = v;
                }
            }
            steps.push(e);
            continue;
        }
        if last {
            let how = *r.pick(&["q", "z"]);
            s.send(how.as_bytes());
            let ok = s.end();
            let mut v = base(&mut s, ok); v["op"] = json!("quit"); v["how"] = json!(how);
            steps.push(v);
            break;
        }
        match if k == 3 && r.chance(1, 4) { 19 } else { r.below(20) } {
            0..=6 => {
                let mut k = *r.pick(&plain);
                if r.chance(1, 5) { k = *r.pick(&["h", "j"]); }
                // some widget has to be able to take the focus
                let others = (1..=nb).filter(|i| cells[*i]["can"] == 1 && !(*i == 1 && (hid != (k == "h"))) && !(*i == 2 && (dis != (k == "j")))).count();
                if others == 0 { k = "s"; }
                if k == "h" { hid = !hid; } if k == "j" && nb >= 2 { dis = !dis; } if k == "r" { hid = false; dis = false; }
                s.send(&keybytes(k));
                let ok = s.sync(|l| count(l, "k:") >= 1);
                let mut v = base(&mut s, ok); v["op"] = json!("keys"); v["ks"] = json!([k]); e = v;
            }
            7 | 8 => {
                let ks: Vec<&str> = (0..r.range(2, 6)).map(|_| *r.pick(&["a", "s", "x", "e", "tab", "backtab", "g", "u", "d", "r", "f"])).collect();
                let others = (1..=nb).filter(|i| cells[*i]["can"] == 1 && !(*i == 1 && hid) && !(*i == 2 && dis)).count();
                let ks = if others == 0 { vec!["s"] } else { ks };
                if ks.contains(&"r") { hid = false; dis = false; }
                let mut b = vec![]; for k in &ks { b.extend(keybytes(k)); }
                s.send(&b);
                let n = ks.len();
                let ok = s.sync(|l| count(l, "k:") >= n);
                let mut v = base(&mut s, ok); v["op"] = json!("keys"); v["ks"] = json!(ks); e = v;
            }
            9 | 10 => {
                let (k, n) = *r.pick(&[("m", 1), ("M", 2), ("R", 1), ("G", 1), ("t", 1)]);
                if k == "R" { hid = false; dis = false; }
                s.send(k.as_bytes());
                let ok = s.sync(|l| count(l, "k:") >= 1 && count(l, "m:note") >= n);
                let mut v = base(&mut s, ok); v["op"] = json!("keys"); v["ks"] = json!([k]); e = v;
            }
            11..=15 => {
                let k = *r.pick(&["down", "up", "move", "move", "move", "drag", "wheel"]);
                if !r.chance(1, 6) { pos = (r.range(20, w as i64 - 8) as usize, r.below((nb + 3).min(h - 5))); }
                pos = (pos.0.min(w - 8), pos.1.min(h - 5));
                // a second move on the spot only re-arms a tooltip that is there already
                if tips && k == "move" && pos == at { pos.0 = if pos.0 > 20 { pos.0 - 1 } else { pos.0 + 1 }; }
                if k == "move" { at = pos; }
                s.send(&mousebytes(k, pos.0, pos.1));
                let ok = s.sync(|l| count(l, "y:") >= 1);
                // a tooltip comes with the next tick: give it the chance to, where one is due
                let y = pos.1;
                let vis: Vec<usize> = (0..nb + 2).filter(|c| !(*c == 1 && hid)).collect();
                let cell = vis[y.min(vis.len() - 1)];
                if tips && k == "move" && cells[cell]["tip"] == 1 {
                    let t0 = Instant::now();
                    while s.rows()["tip"].as_array().unwrap().is_empty() && t0.elapsed() < WAIT && !s.eof { s.settle(); s.pump(5); }
                }
                let mut v = base(&mut s, ok); v["op"] = json!("mouse"); v["k"] = json!(k); v["x"] = json!(pos.0); v["y"] = json!(pos.1); e = v;
            }
            16 | 17 => {
                let (nw, nh) = size(&mut r);
                if (nw, nh) == (w, h) { continue; }
                // crossterm 0.27 can miss a signal that comes together with input: have all input read first,
                // and repeat the signal if need be
                s.send(b"v");
                s.wait(|l| count(l, "k:v") > 0);
                s.pump(20);
                s.take();
                (w, h) = (nw, nh);
                s.t.resize(w, h);
                unsafe { let ws = winsize(w, h); libc::ioctl(s.fd, libc::TIOCSWINSZ as _, &ws); }
                let want = format!("z:{w}:{h}");
                for _ in 0..8 {
                    let t0 = Instant::now();
                    while !s.t.log.contains(&want) && t0.elapsed() < Duration::from_millis(1500) && !s.eof { s.pump(20); }
                    if s.t.log.contains(&want) { break; }
                    unsafe { libc::kill(s.child.id() as i32, libc::SIGWINCH); }
                }
                let ok = s.sync(|l| l.contains(&want));
                s.t.log.dedup();
                let mut v = base(&mut s, ok); v["op"] = json!("size"); v["w"] = json!(w); v["h"] = json!(h); e = v;
            }
            _ => {
                // the palette's key, one like it, or (without a palette) just a key
                let (by, mods, key, opens) = if k == 3 { &MANY[(seed as usize).wrapping_mul(7).wrapping_add(i as usize * 5) % MANY.len()] } else { r.pick(ONE) };
                let opens = *opens && k != 0;
                s.send(by);
                let ok = s.sync(|l| if opens { count(l, "p:open") > 0 && count(l, "h:") > 0 } else { count(l, "k:") >= 1 });
                let mut v = base(&mut s, ok); v["op"] = json!("chord"); v["mods"] = json!(mods); v["key"] = json!(key); e = v; open = opens;
            }
        }
        let late = e["late"] == 1;
        steps.push(e);
        if late { break; }
    }
    json!({"cfg": cfg, "w": w0, "h": h0, "steps": steps})
}

pub fn run(a: &Args, out: &mut Out) {
    let n = if a.thorough { 2400 } else { 320 };
    let seed = a.seed;
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let res = std::sync::Arc::new(std::sync::Mutex::new(vec![Value::Null; n]));
    let hs: Vec<_> = (0..8).map(|_| { let (next, res) = (next.clone(), res.clone()); std::thread::spawn(move || loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= n { break; }
        let v = case(seed.wrapping_mul(1_000_003).wrapping_add(i as u64) ^ 0xE2E);
        res.lock().unwrap()[i] = v;
    }) }).collect();
    for h in hs { if let Err(e) = h.join() { eprintln!("e2e worker: {:?}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))); std::process::exit(4); } }
    for v in res.lock().unwrap().iter() { out.line(v); }
}
