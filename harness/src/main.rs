#![recursion_limit = "256"]
mod bar;
mod boxes;
mod sizes;
mod canvas;
mod colour;
mod e2e;
mod common;
mod css;
mod fuzzy;
mod palette;
mod hit;
mod input;
mod keyline;
mod ready;
mod svg;
mod layout;
mod markup;
mod probe;
mod restyle;
mod scroll;
mod strip;
mod timers;
mod tree;
mod widgets;
mod wrap;

use common::*;

fn main() {
    let mut it = std::env::args().skip(1);
    let what = it.next().expect("usage: vh <generator> --tier T --seed N --out F");
    if what == "e2e-child" {
        return e2e::child(&it.next().expect("configuration"));
    }
    let mut a = Args { thorough: false, seed: 1, out: "out.ndjson".into() };
    while let Some(k) = it.next() {
        let v = it.next().expect("value");
        match k.as_str() {
            "--tier" => a.thorough = v == "thorough",
            "--seed" => a.seed = v.parse().unwrap_or(1),
            "--out" => a.out = v,
            _ => panic!("unknown arg {k}"),
        }
    }
    // panics of the driven code are observations, not noise
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out::new(&a.out);
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match what.as_str() {
            "canvas" => canvas::run_draw(&a, &mut out),
            "flush" => canvas::run_flush(&a, &mut out),
            "strip" => strip::run(&a, &mut out),
            "wrap" => wrap::run(&a, &mut out),
            "scrollstate" => scroll::run_state(&a, &mut out),
            "sizes" => sizes::run(&a, &mut out),
            "box" => boxes::run(&a, &mut out),
            "bar" => bar::run(&a, &mut out),
            "scroll" => scroll::run_pane(&a, &mut out),
            "markup" => markup::run(&a, &mut out),
            "fuzzy" => fuzzy::run(&a, &mut out),
            "palette" => palette::run(&a, &mut out),
            "flow" => layout::run_flow(&a, &mut out),
            "arrange" => layout::run_arrange(&a, &mut out),
            "hit" => hit::run(&a, &mut out),
            "keyline" => keyline::run(&a, &mut out),
            "ready" => ready::run(&a, &mut out),
            "export" => svg::run(&a, &mut out),
            "cascade" => css::run(&a, &mut out, false),
            "syntax" => css::run(&a, &mut out, true),
            "restyle" => restyle::run(&a, &mut out),
            "bubble" => tree::run(&a, &mut out, 1),
            "focus" => tree::run(&a, &mut out, 2),
            "query" => tree::run(&a, &mut out, 3),
            "timers" => timers::run(&a, &mut out),
            "widgets" => widgets::run(&a, &mut out),
            "e2e" => e2e::run(&a, &mut out),
            "colour" => colour::run(&a, &mut out),
            "input" => input::run(&a, &mut out),
            _ => {
                eprintln!("unknown generator {what}");
                std::process::exit(3);
            }
        }
    }).unwrap();
    if t.join().is_err() {
        eprintln!("harness panicked outside the driven code");
        std::process::exit(4);
    }
}
