//! C09: many parsers at once, on threads and inside one another.

use super::errs::any_text;
use super::Prop;
use crate::api::{self, call, show_pos, Op, Ret};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::{lock, Fault, Rec, Shared, SimPanic};
use crate::tape::{hash_str, mix2, Tape};
use crate::wire::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

pub static C09: Prop = Prop {
    id: "C09",
    level: "exploration",
    run: c09,
    quick: 120_000,
    thorough: 4_000_000,
    rule: "a run is two to four parsers with their own streams, histories of calls and faults (failures, panics, one stalled for good); either on real threads of which exactly one runs at a time, the scheduler choosing the next at reads and builder calls and parsers moving between threads between calls, or nested, a read or builder call of one making a call of another; every transcript is compared with the one made alone; non-trivial: at least five switches inside calls",
};

/// One parser and what it is going to meet.
#[derive(Clone)]
struct Job {
    text: Arc<Vec<char>>,
    ops: Option<Vec<Op>>,
    fault: Option<(u64, Fault)>,
    src_panic: Option<u64>,
    /// Never scheduled again from this seam crossing on.
    stall: Option<u64>,
}

struct Run {
    p: RecParser,
    st: Shared,
    w: WireRef,
    job: Job,
    i: usize,
    log: Vec<String>,
    done: bool,
}

impl Run {
    fn new(job: &Job, hook: Option<crate::rec::Hook>) -> Run {
        let w = wire(job.text.clone());
        let (b, st) = Rec::new();
        lock(&st).fault = job.fault;
        lock(&st).hook = hook.clone();
        lock(&w).panic_at = job.src_panic;
        lock(&w).hook = hook;
        Run {
            p: Parser::with_builder(Lexer::new(Src(w.clone())), b),
            st,
            w,
            job: job.clone(),
            i: 0,
            log: Vec::new(),
            done: false,
        }
    }
    /// One public call.
    fn step(&mut self) {
        let op = match &self.job.ops {
            None => Op::Complete,
            Some(v) => v[self.i],
        };
        self.i += 1;
        let r = call(&mut self.p, op, &self.st);
        let (h, calls, live) = {
            let s = lock(&self.st);
            (s.hash(), s.calls, s.live_count())
        };
        let (read, polls) = {
            let s = lock(&self.w);
            (s.pos, s.polls)
        };
        self.log.push(format!(
            "{:?} -> {} at {} builder {}:{:x} live {} read {} polls {}",
            op,
            r.show(),
            show_pos(self.p.pos()),
            calls,
            h,
            live,
            read,
            polls
        ));
        self.done = match &self.job.ops {
            None => matches!(r, Ret::Nothing) || self.i > self.job.text.len() + 2,
            Some(v) => self.i >= v.len(),
        } || self.i > 200;
    }
    fn finish(self) -> Vec<String> {
        lock(&self.st).hook = None;
        lock(&self.w).hook = None;
        self.log
    }
}

fn job(c: &mut Ctx) -> Job {
    let single = if c.t.chance(10) { Some(super::parts::history(c)) } else { None };
    let (text, single) = match single {
        Some((t, o)) => (Some(t), Some(o)),
        None => (None, None),
    };
    let text = if let Some(t) = text { t } else { match c.t.below(3) {
        0 => any_text(c),
        _ => {
            let cfg = if c.t.chance(50) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, 1) };
            gen::program(&mut c.t, cfg).text
        }
    }};
    c.text("delivered", &text);
    let ops = if single.is_some() {
        single
    } else if c.t.chance(25) {
        let n = 1 + c.t.draw(12);
        Some((0..n).map(|_| api::any_op(&mut c.t)).collect())
    } else {
        None
    };
    let mut j = Job { text: Arc::new(text), ops, fault: None, src_panic: None, stall: None };
    match c.t.weighted(&[50, 15, 12, 12, 11]) {
        1 => j.fault = Some((c.t.draw(15) as u64, Fault::Err)),
        2 => j.fault = Some((c.t.draw(15) as u64, Fault::Panic)),
        3 => j.src_panic = Some(c.t.draw(60) as u64),
        4 => j.stall = Some(c.t.draw(80) as u64),
        _ => {}
    }
    j
}

/// Counts seam crossings of one parser; gives up at the stall point.
fn counter(stall: Option<u64>, n: &Mutex<u64>) -> bool {
    let mut n = lock(n);
    let k = *n;
    *n += 1;
    stall == Some(k)
}

fn abandoned() -> ! {
    std::panic::panic_any(SimPanic("abandoned".into()))
}

fn solo(j: &Job) -> Vec<String> {
    let n = Mutex::new(0);
    let stall = j.stall;
    let hook: crate::rec::Hook = Arc::new(move |_| {
        if counter(stall, &n) {
            abandoned()
        }
    });
    let mut r = Run::new(j, Some(hook));
    while !r.done {
        r.step();
    }
    r.finish()
}

fn compare(c: &mut Ctx, jobs: &[Job], solo: &[Vec<String>], got: &[Vec<String>], how: &str) -> Res {
    for i in 0..jobs.len() {
        for l in &got[i] {
            ensure!(!l.contains("-> PANIC"), "panic", "parser {}: {}", i, clip(l, 400));
        }
        let n = solo[i].len().max(got[i].len());
        for k in 0..n {
            let (a, b) = (solo[i].get(k), got[i].get(k));
            if a != b {
                let s = |x: Option<&String>| x.map_or("nothing".to_string(), |s| s.clone());
                return fail("influenced", format!("{}: parser {} call {}: alone {}", how, i, k, crate::tree::diff(&s(a), &s(b))));
            }
        }
        c.cov.state(hash_str(&got[i].join("\n")));
    }
    Ok(())
}

fn c09(c: &mut Ctx) -> Res {
    let n = 2 + c.t.below(3);
    let jobs: Vec<Job> = (0..n).map(|_| job(c)).collect();
    let alone: Vec<Vec<String>> = jobs.iter().map(solo).collect();
    for j in &jobs {
        c.cov.add("builder failure", matches!(j.fault, Some((_, Fault::Err))) as u64);
        c.cov.add("builder panic", matches!(j.fault, Some((_, Fault::Panic))) as u64);
        c.cov.add("source panic", j.src_panic.is_some() as u64);
        c.cov.add("stalled parser", j.stall.is_some() as u64);
    }
    c.cov.execs += n as u64 * 2;
    let threads = c.t.chance(50);
    let (logs, switches, order) = if threads { on_threads(c, &jobs) } else { nested(c, &jobs) };
    c.cov.nontrivial = switches >= 5;
    c.cov.add(if threads { "thread switch" } else { "nested call" }, switches);
    c.cov.note(order);
    c.cov.state(order);
    compare(c, &jobs, &alone, &logs, if threads { "threads" } else { "nested" })
}

// ---- nested --------------------------------------------------------------

struct Nest {
    tape: Tape,
    slots: Vec<Option<Run>>,
    pct: u32,
    depth: u32,
    calls: u64,
    order: u64,
}

fn nest_step(n: &Arc<Mutex<Nest>>, i: usize) {
    let r = lock(n).slots[i].take();
    if let Some(mut r) = r {
        {
            let mut s = lock(n);
            s.depth += 1;
            s.order = mix2(s.order, i as u64);
        }
        r.step();
        let mut s = lock(n);
        s.depth -= 1;
        s.order = mix2(s.order, 77);
        s.slots[i] = Some(r);
    }
}

fn nested(c: &mut Ctx, jobs: &[Job]) -> (Vec<Vec<String>>, u64, u64) {
    let pct = *c.t.pick(&[10u32, 40, 3]);
    let tape = std::mem::replace(&mut c.t, Tape::fixed(Vec::new()));
    let n = Arc::new(Mutex::new(Nest { tape, slots: Vec::new(), pct, depth: 0, calls: 0, order: 0 }));
    for j in jobs {
        let weak = Arc::downgrade(&n);
        let stall = j.stall;
        let count = Mutex::new(0);
        let hook: crate::rec::Hook = Arc::new(move |_| {
            if let Some(n) = weak.upgrade() {
                let other = {
                    let mut s = lock(&n);
                    let pct = s.pct;
                    let free: Vec<usize> = (0..s.slots.len()).filter(|i| s.slots[*i].as_ref().map_or(false, |r| !r.done)).collect();
                    if !free.is_empty() && s.depth < 4 && s.tape.chance(pct) {
                        let k = s.tape.below(free.len());
                        s.calls += 1;
                        Some(free[k])
                    } else {
                        None
                    }
                };
                if let Some(i) = other {
                    nest_step(&n, i);
                }
            }
            if counter(stall, &count) {
                abandoned()
            }
        });
        let r = Run::new(j, Some(hook));
        lock(&n).slots.push(Some(r));
    }
    loop {
        let i = {
            let mut s = lock(&n);
            let free: Vec<usize> = (0..s.slots.len()).filter(|i| s.slots[*i].as_ref().map_or(false, |r| !r.done)).collect();
            if free.is_empty() {
                break;
            }
            let k = s.tape.below(free.len());
            free[k]
        };
        nest_step(&n, i);
    }
    let mut s = lock(&n);
    let runs: Vec<Run> = s.slots.iter_mut().map(|r| r.take().unwrap()).collect();
    c.t = std::mem::replace(&mut s.tape, Tape::fixed(Vec::new()));
    let (calls, order) = (s.calls, s.order);
    drop(s);
    (runs.into_iter().map(Run::finish).collect(), calls, order)
}

// ---- threads ---------------------------------------------------------------

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct Baton {
    tape: Tape,
    /// Which thread may run.
    cur: usize,
    /// Threads that still want to run.
    alive: Vec<bool>,
    stalled: Vec<bool>,
    slots: Vec<Option<Run>>,
    finished: Vec<Option<Run>>,
    pct: u32,
    switches: u64,
    order: u64,
    /// Set at the end: stalled threads give up.
    over: bool,
}
type Sched = Arc<(Mutex<Baton>, Condvar)>;

/// Hands the baton on and waits for it to come back.
fn pass(s: &Sched, me: usize, leaving: bool) {
    let mut b = lock(&s.0);
    if leaving {
        b.alive[me] = false;
    }
    let ready: Vec<usize> = (0..b.alive.len()).filter(|t| b.alive[*t] && !b.stalled[*t]).collect();
    let next = if ready.is_empty() {
        // only stalled ones are left: they are abandoned one by one
        b.over = true;
        (0..b.alive.len()).find(|t| b.alive[*t])
    } else {
        let k = b.tape.below(ready.len());
        Some(ready[k])
    };
    let next = match next {
        Some(n) => n,
        None => {
            b.cur = usize::MAX;
            s.1.notify_all();
            return;
        }
    };
    if next != me {
        b.switches += 1;
        b.order = mix2(b.order, next as u64);
        b.cur = next;
        s.1.notify_all();
    }
    if leaving {
        return;
    }
    while b.cur != me {
        b = s.1.wait(b).unwrap_or_else(|e| e.into_inner());
    }
}

fn seam(s: &Sched, stall: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    if stall {
        lock(&s.0).stalled[me] = true;
        pass(s, me, false);
        // only got back here because everybody else has finished
        lock(&s.0).stalled[me] = false;
        abandoned()
    }
    let go = {
        let mut b = lock(&s.0);
        let pct = b.pct;
        b.tape.chance(pct)
    };
    if go {
        pass(s, me, false);
    }
}

fn worker(s: Sched, me: usize) {
    ME.with(|m| m.set(me));
    {
        let mut b = lock(&s.0);
        while b.cur != me {
            b = s.1.wait(b).unwrap_or_else(|e| e.into_inner());
        }
    }
    loop {
        let r = {
            let mut b = lock(&s.0);
            let free: Vec<usize> = (0..b.slots.len()).filter(|i| b.slots[*i].is_some()).collect();
            if free.is_empty() {
                None
            } else {
                let k = b.tape.below(free.len());
                let i = free[k];
                b.order = mix2(b.order, 100 + i as u64);
                Some((i, b.slots[i].take().unwrap()))
            }
        };
        let (i, mut r) = match r {
            Some(x) => x,
            None => break,
        };
        r.step();
        {
            let mut b = lock(&s.0);
            if r.done {
                b.finished[i] = Some(r);
            } else {
                b.slots[i] = Some(r);
            }
        }
        pass(&s, me, false);
    }
    ME.with(|m| m.set(usize::MAX));
    pass(&s, me, true);
}

fn on_threads(c: &mut Ctx, jobs: &[Job]) -> (Vec<Vec<String>>, u64, u64) {
    let pct = *c.t.pick(&[10u32, 40, 3]);
    let n = jobs.len();
    // a stalled parser keeps its thread: one more than can be stalled
    let threads = jobs.iter().filter(|j| j.stall.is_some()).count() + 1 + c.t.below(3);
    let tape = std::mem::replace(&mut c.t, Tape::fixed(Vec::new()));
    let s: Sched = Arc::new((
        Mutex::new(Baton {
            tape,
            cur: usize::MAX,
            alive: vec![true; threads],
            stalled: vec![false; threads],
            slots: Vec::new(),
            finished: (0..n).map(|_| None).collect(),
            pct,
            switches: 0,
            order: 0,
            over: false,
        }),
        Condvar::new(),
    ));
    for j in jobs {
        let weak = Arc::downgrade(&s);
        let stall = j.stall;
        let count = Mutex::new(0);
        let hook: crate::rec::Hook = Arc::new(move |_| {
            let st = counter(stall, &count);
            if let Some(s) = weak.upgrade() {
                seam(&s, st);
            }
        });
        let r = Run::new(j, Some(hook));
        lock(&s.0).slots.push(Some(r));
    }
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let s = s.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(s, t)).expect("spawn")
        })
        .collect();
    {
        let mut b = lock(&s.0);
        b.cur = 0;
        s.1.notify_all();
    }
    for h in hs {
        if let Err(p) = h.join() {
            std::panic::resume_unwind(p);
        }
    }
    let mut b = lock(&s.0);
    let runs: Vec<Run> = b.finished.iter_mut().map(|r| r.take().expect("unfinished parser")).collect();
    c.t = std::mem::replace(&mut b.tape, Tape::fixed(Vec::new()));
    let (sw, order) = (b.switches, b.order);
    drop(b);
    (runs.into_iter().map(Run::finish).collect(), sw, order)
}
