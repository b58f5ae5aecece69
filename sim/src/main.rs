//! Deterministic simulation of conch-parser: see /verif/DESIGN.md.

mod alloc;
mod api;
mod common;
mod conv;
mod gen;
mod props;
mod rec;
mod supervisor;
mod tape;
mod toks;
mod tree;
mod wire;

use std::cell::RefCell;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

thread_local! {
    static LAST: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// Location and message of this thread's most recent panic.
pub fn last_panic() -> (String, String) {
    LAST.with(|l| l.borrow().clone())
}

/// Our own files have relative paths; the library's are absolute.
pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/")
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<rec::SimPanic>() {
            return;
        }
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let _ = LAST.try_with(|l| *l.borrow_mut() = (loc, msg));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || supervisor::main(&args))
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
