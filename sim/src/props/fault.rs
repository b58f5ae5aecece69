//! C06, C07, C11: builder failures, panics at every seam, custody of values.

use super::errs::any_text;
use super::Prop;
use crate::api::{self, call, DynRec, Op, Ret, Sim};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::{lock, BErr, Fault, HState, Rec, Shared, SimPanic};
use crate::tape::{hash_str, mix2};
use crate::wire::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser};
use conch_parser::ast::builder::{AtomicDefaultBuilder, Builder, DefaultBuilder};
use conch_parser::token::Token;
use std::sync::{Arc, Mutex};

/// How the builder is handed to the parser.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wrap {
    Plain,
    Mut,
    Boxed,
    Dyn,
    MutDyn,
    BoxMut,
}
pub const WRAPS: &[Wrap] = &[Wrap::Plain, Wrap::Mut, Wrap::Boxed, Wrap::Dyn, Wrap::MutDyn, Wrap::BoxMut];

/// How it is driven.
#[derive(Clone, Debug)]
pub enum Drive {
    Calls,
    Iter,
    Ops(Vec<Op>),
}

pub struct Plan {
    pub text: Arc<Vec<char>>,
    pub wrap: Wrap,
    pub drive: Drive,
    pub hint: u8,
}

/// One finished execution of a plan.
pub struct Done {
    pub rets: Vec<Ret>,
    pub polls: Vec<u64>,
    /// Polls when each builder call began.
    pub entered: Vec<u64>,
    pub st: Shared,
    pub w: WireRef,
    /// Live values when the last call returned.
    pub live_at_end: usize,
    /// Values dropped by the library during calls that succeeded.
    pub dropped_in_success: u32,
    pub after: Vec<String>,
    pub released: Vec<(u32, u32)>,
}

type Setup<'a> = &'a dyn Fn(&Shared, &WireRef);

/// Runs a plan; `more` calls follow after a failing one.
pub fn play(plan: &Plan, setup: Setup<'_>, more: u32) -> Done {
    let w = wire(plan.text.clone());
    let (b, st) = Rec::new();
    lock(&w).hint = plan.hint;
    let entered: Arc<Mutex<Vec<u64>>> = Arc::default();
    {
        let (e, w) = (entered.clone(), w.clone());
        lock(&st).hook = Some(Arc::new(move |_| {
            let n = lock(&w).polls;
            lock(&e).push(n);
        }));
    }
    setup(&st, &w);
    let lexer = Lexer::new(Src(w.clone()));
    let mut d = Done {
        rets: vec![],
        polls: vec![],
        entered: vec![],
        st: st.clone(),
        w: w.clone(),
        live_at_end: 0,
        dropped_in_success: 0,
        after: vec![],
        released: vec![],
    };
    let mut b = b;
    match plan.wrap {
        Wrap::Plain => drive(lexer, b, plan, more, &mut d),
        Wrap::Mut => drive(lexer, &mut b, plan, more, &mut d),
        Wrap::Boxed => drive(lexer, Box::new(b), plan, more, &mut d),
        Wrap::Dyn => {
            let x: Box<DynRec> = Box::new(b);
            drive(lexer, x, plan, more, &mut d)
        }
        Wrap::MutDyn => {
            let x: &mut DynRec = &mut b;
            drive(lexer, x, plan, more, &mut d)
        }
        Wrap::BoxMut => drive(lexer, Box::new(&mut b), plan, more, &mut d),
    }
    // breaks the cycle through the hook
    lock(&st).hook = None;
    d.entered = std::mem::take(&mut lock(&entered));
    d
}

fn drive<I: Iterator<Item = Token>, B: Sim>(lexer: I, b: B, plan: &Plan, more: u32, d: &mut Done) {
    let p = Parser::with_builder(lexer, b);
    let mut left = plan.text.len() + 3;
    let note = |d: &mut Done, r: Ret, before: u32| -> bool {
        let (live, rel) = {
            let s = lock(&d.st);
            (s.live_count(), s.released)
        };
        let bad = matches!(r, Ret::Err(_) | Ret::Panic(_) | Ret::Injected(_));
        d.live_at_end = live;
        if !bad {
            d.dropped_in_success += rel - before;
        }
        d.released.push((before, rel));
        d.polls.push(lock(&d.w).polls);
        d.rets.push(r);
        bad
    };
    match &plan.drive {
        Drive::Iter => {
            let mut it = p.into_iter();
            loop {
                let before = lock(&d.st).released;
                let r = match guarded(|| it.next()) {
                    Ok(Some(Ok(h))) => Ret::Val(h.deliver()),
                    Ok(Some(Err(e))) => Ret::Err(e),
                    Ok(None) => Ret::Nothing,
                    Err(Out::Injected(p)) => Ret::Injected(p),
                    Err(o) => Ret::Panic(o.show()),
                };
                let stop = matches!(r, Ret::Nothing);
                if note(d, r, before) || stop || left == 0 {
                    break;
                }
                left -= 1;
            }
            for _ in 0..more {
                match guarded(|| it.next()) {
                    Ok(None) => d.after.push("nothing".into()),
                    Ok(Some(Ok(h))) => d.after.push(format!("command {}", h.deliver().exact())),
                    Ok(Some(Err(e))) => d.after.push(format!("error {:?}", e)),
                    Err(o) => d.after.push(o.show()),
                }
            }
        }
        dr => {
            let mut p = p;
            let mut i = 0;
            loop {
                let op = match dr {
                    Drive::Ops(v) => match v.get(i) {
                        Some(o) => *o,
                        None => break,
                    },
                    _ => Op::Complete,
                };
                i += 1;
                let before = lock(&d.st).released;
                let r = if matches!(dr, Drive::Calls) {
                    match guarded(|| p.complete_command()) {
                        Ok(Ok(Some(h))) => Ret::Val(h.deliver()),
                        Ok(Ok(None)) => Ret::Nothing,
                        Ok(Err(e)) => Ret::Err(e),
                        Err(Out::Injected(p)) => Ret::Injected(p),
                        Err(o) => Ret::Panic(o.show()),
                    }
                } else {
                    call(&mut p, op, &d.st)
                };
                let stop = op == Op::Complete && matches!(r, Ret::Nothing);
                if note(d, r, before) || stop || left == 0 {
                    break;
                }
                left -= 1;
            }
            for k in 0..more {
                let op = if k % 2 == 0 { Op::Complete } else { [Op::Word, Op::Linebreak, Op::Pipeline, Op::Redirect][(k as usize / 2) % 4] };
                d.after.push(call(&mut p, op, &d.st).show());
            }
        }
    }
}

/// A program, cut program or corrupted text with a way to drive it.
fn plan(c: &mut Ctx) -> Plan {
    if c.t.chance(15) {
        let (text, ops) = super::parts::history(c);
        c.text("delivered", &text);
        let wrap = *c.t.pick(WRAPS);
        let hint = c.t.draw(6) as u8;
        c.log(|| format!("builder {:?}, driven by {:?}", wrap, ops));
        return Plan { text: Arc::new(text), wrap, drive: Drive::Ops(ops), hint };
    }
    let text = if c.t.chance(65) {
        let size = 1 + c.t.draw(c.size.min(3));
        let cfg = if c.t.chance(40) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
        gen::program(&mut c.t, cfg).text
    } else {
        any_text(c)
    };
    c.text("delivered", &text);
    let drive = match c.t.below(4) {
        0 | 1 => Drive::Calls,
        2 => Drive::Iter,
        _ => {
            let n = 2 + c.t.draw(12);
            Drive::Ops((0..n).map(|_| api::any_op(&mut c.t)).collect())
        }
    };
    let wrap = *c.t.pick(WRAPS);
    let hint = c.t.draw(6) as u8;
    c.log(|| format!("builder {:?}, driven by {:?}", wrap, drive));
    Plan { text: Arc::new(text), wrap, drive, hint }
}

/// The fault points to visit: all of few, some of many.
fn points(c: &mut Ctx, n: u64, max: usize) -> Vec<u64> {
    if n as usize <= max {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = (0..max).map(|_| c.t.draw(n as u32) as u64).collect();
        v.sort();
        v.dedup();
        v
    }
}

fn same_prefix(base: &Done, d: &Done) -> Res {
    let m = d.rets.len() - 1;
    for i in 0..m {
        ensure!(
            i < base.rets.len() && base.rets[i].show() == d.rets[i].show(),
            "earlier-results",
            "call {} returned {}, without the fault {}",
            i,
            clip(&d.rets[i].show(), 300),
            base.rets.get(i).map_or("nothing more".into(), |r| clip(&r.show(), 300))
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    level: "fault_enumeration",
    run: c06,
    quick: 60_000,
    thorough: 1_500_000,
    rule: "a run is a delivered stream, a driver (calls, iterator, random public calls) and a way to hand over the builder (value, &mut, Box, trait object); the builder is made to fail at every one of its calls in turn (60 random ones when there are more); non-trivial: at least one failing builder call was reached",
};

fn c06(c: &mut Ctx) -> Res {
    let plan = plan(c);
    let base = play(&plan, &|_, _| {}, 0);
    if let Some(Ret::Panic(s)) = base.rets.last() {
        return fail("panic", s.clone());
    }
    let n = lock(&base.st).calls;
    let hashes = lock(&base.st).hashes.clone();
    c.cov.nontrivial = n > 0;
    c.cov.execs += 1;
    for k in points(c, n, 60) {
        let d = play(&plan, &|st, _| lock(st).fault = Some((k, Fault::Err)), 3);
        c.cov.execs += 1;
        c.cov.add("builder failure", 1);
        let name = lock(&d.st).names.get(k as usize).copied().unwrap_or("?");
        c.log(|| format!("failing call {} ({}): {}", k, name, clip(&d.rets.last().unwrap().show(), 200)));
        c.cov.state(mix2(hash_str(name), mix2(k, d.rets.len() as u64)));
        same_prefix(&base, &d)?;
        let (calls, made, hs) = {
            let s = lock(&d.st);
            (s.calls, s.errs_made, s.hashes.clone())
        };
        ensure!(
            hs.len() > k as usize && hs[..k as usize] == hashes[..k as usize],
            "earlier-calls",
            "failure at call {} ({}): the {} builder calls before it differ from the fault-free ones",
            k,
            name,
            k
        );
        match d.rets.last().unwrap() {
            Ret::Err(ParseError::Custom(BErr { id, .. })) => {
                ensure!(*id == k, "wrong-error", "failure {} was reported as failure {}", k, id)
            }
            r => {
                return fail(
                    "not-surfaced",
                    format!("builder call {} ({}) failed, but the parse call returned {}", k, name, clip(&r.show(), 300)),
                )
            }
        }
        // nothing was called or read after the failure, up to the return
        ensure!(
            *d.polls.last().unwrap() == d.entered[k as usize],
            "read-after-failure",
            "failure at call {} ({}): the source was polled {} more times",
            k,
            name,
            d.polls.last().unwrap() - d.entered[k as usize]
        );
        let by_iter = matches!(plan.drive, Drive::Iter);
        if by_iter {
            ensure!(calls == k + 1, "called-after-failure", "failure at call {}: {} builder calls in all", k, calls);
            for a in &d.after {
                ensure!(a == "nothing", "not-fused", "after the failure the iterator yielded {}", clip(a, 200));
            }
            ensure!(lock(&d.w).polls == *d.polls.last().unwrap(), "read-after-failure", "the iterator read on after the failure");
        } else {
            // `more` calls follow: run again without them to count
            let e = play(&plan, &|st, _| lock(st).fault = Some((k, Fault::Err)), 0);
            let calls = lock(&e.st).calls;
            ensure!(calls == k + 1, "called-after-failure", "failure at call {} ({}): {} builder calls in all", k, name, calls);
            for a in &d.after {
                ensure!(!a.starts_with("PANIC"), "panic", "after the failure: {}", a);
            }
        }
        ensure!(made == 1, "repeated", "{} errors made", made);
        let st = d.st.clone();
        ensure!(lock(&st).errs_dropped == 0, "error-dropped", "the error value was dropped by the parser");
        drop(d);
        ensure!(lock(&st).errs_dropped == 1, "error-copied", "the error value was dropped {} times", lock(&st).errs_dropped);
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    level: "fault_enumeration",
    run: c07,
    quick: 36_000,
    thorough: 1_000_000,
    rule: "a run is a delivered stream, a driver and a way to hand over the builder; a panic is injected at every read and every builder call in turn (70 and 50 random ones when there are more), the parser is then called again four times and dropped; non-trivial: a panic was injected while values were outstanding",
};

fn c07(c: &mut Ctx) -> Res {
    let plan = plan(c);
    let base = play(&plan, &|_, _| {}, 0);
    if let Some(Ret::Panic(s)) = base.rets.last() {
        return fail("panic", s.clone());
    }
    let calls = lock(&base.st).calls;
    let polls = lock(&base.w).polls;
    c.cov.execs += 1;
    for k in points(c, calls, 50) {
        let d = play(&plan, &|st, _| lock(st).fault = Some((k, Fault::Panic)), 4);
        c.cov.add("builder panic", 1);
        panicked(c, &base, &plan, d, &format!("builder call {}", k))?;
    }
    for k in points(c, polls, 70) {
        let d = play(&plan, &|_, w| lock(w).panic_at = Some(k), 4);
        c.cov.add("source panic", 1);
        panicked(c, &base, &plan, d, &format!("read {}", k))?;
    }
    // the caller's text type panics inside the provided builders
    if c.t.chance(25) {
        let arc = c.t.chance(50);
        let mut go = |c: &mut Ctx, at| {
            if arc {
                in_text(c, AtomicDefaultBuilder::<Txt>::new(), &plan.text, at)
            } else {
                in_text(c, DefaultBuilder::<Txt>::new(), &plan.text, at)
            }
        };
        let n = go(c, u64::MAX)?;
        for k in points(c, n, 15) {
            c.cov.add("text conversion panic", 1);
            go(c, k)?;
        }
    }
    Ok(())
}

thread_local! {
    /// Texts made, texts dropped, the one whose conversion panics.
    static TEXTS: std::cell::Cell<(u64, u64, u64)> = const { std::cell::Cell::new((0, 0, u64::MAX)) };
}
/// The caller's own text type, for the provided builders to put in their trees.
pub struct Txt(#[allow(dead_code)] String);
impl From<String> for Txt {
    fn from(s: String) -> Txt {
        TEXTS.with(|t| {
            let (made, dropped, at) = t.get();
            if made == at {
                t.set((made, dropped, u64::MAX));
                std::panic::panic_any(SimPanic(format!("text {}", made)));
            }
            t.set((made + 1, dropped, at));
        });
        Txt(s)
    }
}
impl Drop for Txt {
    fn drop(&mut self) {
        TEXTS.with(|t| {
            let (made, dropped, at) = t.get();
            t.set((made, dropped + 1, at));
        });
    }
}
fn texts() -> (u64, u64) {
    TEXTS.with(|t| (t.get().0, t.get().0.wrapping_sub(t.get().1)))
}

/// Parses into the provided builder's trees while making the text `at` panics.
fn in_text<B: Builder>(c: &mut Ctx, b: B, text: &Arc<Vec<char>>, at: u64) -> Result<u64, Fail> {
    TEXTS.with(|t| t.set((0, 0, at)));
    c.cov.execs += 1;
    let w = wire(text.clone());
    let mut p = Parser::with_builder(Lexer::new(Src(w.clone())), b);
    let mut left = text.len() + 3;
    let mut hit = false;
    let mut kept = Vec::new();
    loop {
        let out = guarded(|| p.complete_command());
        match out {
            Ok(Ok(Some(x))) if !hit => kept.push(x),
            Ok(Ok(None)) => break,
            Ok(_) => {}
            Err(Out::Injected(x)) => {
                ensure!(!hit, "panic-again", "after the panic at text {}: {}", at, x.0);
                ensure!(x.0 == format!("text {}", at), "payload", "panic at text {} came out as {}", at, x.0);
                hit = true;
                // what was returned before is the caller's; nothing else is left
                let before = texts().1;
                c.cov.nontrivial |= before > 0;
                kept.clear();
                ensure!(texts().1 == 0, "leak", "panic at text {}: {} texts were not released", at, texts().1 as i64);
            }
            Err(o) => return fail("panic-again", format!("panic injected at text {}: {}", at, o.show())),
        }
        left -= 1;
        if left == 0 {
            break;
        }
    }
    drop(p);
    drop(kept);
    let (made, live) = texts();
    ensure!(live == 0, "leak", "panic at text {}: {} texts never released", at, live as i64);
    ensure!(hit == (at < u64::MAX), "panic-lost", "the panic at text {} did not reach the caller", at);
    ensure!(lock(&w).drops == 1, "release", "panic at text {}: source dropped {} times", at, lock(&w).drops);
    Ok(made)
}

fn panicked(c: &mut Ctx, base: &Done, plan: &Plan, d: Done, what: &str) -> Res {
    c.cov.execs += 1;
    same_prefix(base, &d)?;
    match d.rets.last().unwrap() {
        Ret::Injected(p) => {
            ensure!(p.0 == what, "payload", "panic at {} came out as {}", what, p.0)
        }
        r => return fail("panic-lost", format!("panic at {} was injected, but the call returned {}", what, clip(&r.show(), 300))),
    }
    let last = d.released.last().unwrap();
    if last.1 > last.0 {
        c.cov.nontrivial = true;
    }
    c.cov.state(mix2(hash_str(what), last.1 as u64));
    ensure!(d.live_at_end == 0, "leak", "panic at {}: {} values were not released", what, d.live_at_end);
    for a in &d.after {
        ensure!(!a.starts_with("PANIC") && !a.starts_with("injected"), "panic-again", "after the panic at {}: {}", what, a);
    }
    let s = lock(&d.st);
    ensure!(s.builder_drops == 1, "release", "panic at {}: builder dropped {} times", what, s.builder_drops);
    ensure!(s.live_count() == 0, "leak", "panic at {}: {} values never released", what, s.live_count());
    drop(s);
    ensure!(lock(&d.w).drops == 1, "release", "panic at {}: source dropped {} times", what, lock(&d.w).drops);
    // results returned earlier are still what they were
    let m = d.rets.len() - 1;
    c.cov.add("calls before the panic", m as u64);
    let _ = plan;
    Ok(())
}

// ---------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11",
    level: "fault_enumeration",
    run: c11,
    quick: 90_000,
    thorough: 2_000_000,
    rule: "a run is a delivered stream, a driver and a way to hand over the builder; it is parsed whole, with the builder failing at every call in turn (40 random ones when more), cut at up to 30 places, and abandoned after every call; the custody of every value is checked; non-trivial: ten or more values",
};

fn c11(c: &mut Ctx) -> Res {
    let mut plan = plan(c);
    let base = play(&plan, &|_, _| {}, 0);
    let n = lock(&base.st).calls;
    c.cov.nontrivial = lock(&base.st).states.len() >= 10;
    custody(c, &base, "whole stream")?;
    // in order: the values a delivered command is made of were made and
    // used in the order of their numbers, checked by the builder itself
    for k in points(c, n, 40) {
        let d = play(&plan, &|st, _| lock(st).fault = Some((k, Fault::Err)), 0);
        c.cov.add("builder failure", 1);
        custody(c, &d, &format!("failing call {}", k))?;
    }
    let whole = plan.text.clone();
    for k in points(c, whole.len() as u64, 30) {
        plan.text = Arc::new(whole[..k as usize].to_vec());
        let d = play(&plan, &|_, _| {}, 0);
        c.cov.add("cut", 1);
        custody(c, &d, &format!("cut at {}", k))?;
    }
    plan.text = whole;
    // abandoned between calls
    if let Drive::Calls = plan.drive {
        for m in 0..base.rets.len().min(6) {
            plan.drive = Drive::Ops(vec![Op::Complete; m]);
            let d = play(&plan, &|_, _| {}, 0);
            c.cov.add("abandoned", 1);
            custody(c, &d, &format!("abandoned after {} calls", m))?;
        }
    }
    Ok(())
}

fn custody(c: &mut Ctx, d: &Done, what: &str) -> Res {
    c.cov.execs += 1;
    if let Some(Ret::Panic(s)) = d.rets.last() {
        return fail("panic", s.clone());
    }
    let s = lock(&d.st);
    if let Some(v) = s.violations.first() {
        return fail("custody", format!("{}: {}", what, v));
    }
    ensure!(
        d.dropped_in_success == 0,
        "dropped-silently",
        "{}: {} values were thrown away by calls that succeeded",
        what,
        d.dropped_in_success
    );
    ensure!(d.live_at_end == 0, "left-behind", "{}: {} values outstanding when the last call returned", what, d.live_at_end);
    let live = s.states.iter().filter(|x| **x == HState::Live).count();
    ensure!(live == 0, "left-behind", "{}: {} values outstanding after the parser was dropped", what, live);
    ensure!(s.builder_drops == 1, "release", "{}: builder dropped {} times", what, s.builder_drops);
    c.cov.state(mix2(s.hash(), s.states.len() as u64));
    Ok(())
}
