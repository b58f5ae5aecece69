//! C18: memory over long sessions, and after every kind of end.

use super::errs::any_text;
use super::repl::{Fwd, FwdSt};
use super::Prop;
use crate::alloc::live;
use crate::api::{toks, words};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::{lock, SimPanic};
use crate::tape::{hash_str, mix2};
use conch_parser::ast::builder::{ArcBuilder, Builder, EmptyBuilder, RcBuilder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use conch_parser::token::Token;
use std::sync::{Arc, Mutex};

pub static C18: Prop = Prop {
    id: "C18",
    level: "exploration",
    run: c18,
    quick: 240_000,
    thorough: 3_000_000,
    rule: "a run is either a long session (a generated program, possibly with lines that fail, repeated 12 to 60 times with ever new names, with probes, over every builder, by calls, iterator or the bare lexer), in which the live heap bytes after returned commands must stop growing; or a session ended by its end, an error, abandonment, a panic of the source or a builder failure, after which every byte must have been freed; non-trivial: at least 100 results, or a fault that fired",
};

/// A source that allocates nothing: `chars` over and over, with the digits in
/// names replaced by a different character in every round.
struct Cyc {
    chars: Arc<Vec<char>>,
    vary: Arc<Vec<bool>>,
    pos: usize,
    end: usize,
    panic_at: Option<usize>,
    seen: Arc<Mutex<usize>>,
}
impl Iterator for Cyc {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.panic_at == Some(self.pos) {
            self.panic_at = None;
            std::panic::panic_any(SimPanic(String::new()));
        }
        if self.pos >= self.end {
            return None;
        }
        let n = self.chars.len();
        let (k, i) = (self.pos / n, self.pos % n);
        self.pos += 1;
        *lock(&self.seen) = self.pos;
        let x = self.chars[i];
        if self.vary[i] {
            char::from_u32(0x4e00 + (k as u32 % 1000) * 10 + x.to_digit(10).unwrap_or(0))
        } else {
            Some(x)
        }
    }
}

fn variable(t: &[char]) -> Vec<bool> {
    (0..t.len())
        .map(|i| t[i].is_ascii_digit() && i > 0 && "wxvE".contains(t[i - 1]) && !(i > 1 && t[i - 2].is_ascii_digit()))
        .collect()
}

#[derive(Clone, Copy)]
enum Probe {
    None,
    Word(u8),
    Tok(u8),
    Ws,
    Fn,
}

#[derive(Clone)]
struct Plan {
    chars: Arc<Vec<char>>,
    vary: Arc<Vec<bool>>,
    end: usize,
    probes: Arc<Vec<Probe>>,
    mode: u32,
    panic_at: Option<usize>,
    fault: Option<u64>,
    /// Calls after which the parser is dropped.
    abandon: usize,
    more: u32,
    max_errs: usize,
}

struct Seen {
    /// Most live bytes after a result, per round of the text.
    per: Vec<i64>,
    results: usize,
    commands: usize,
    errors: usize,
    longest: usize,
    panicked: bool,
    fired: bool,
    states: u64,
    after: i64,
    ended: bool,
    bad: Option<String>,
}

fn session<B: Builder>(p: &Plan, b: B) -> Seen
where
    B::Error: std::fmt::Debug,
{
    let n = p.chars.len();
    let rounds = p.end / n + 2;
    let mut s = Seen {
        per: vec![0; rounds],
        results: 0,
        commands: 0,
        errors: 0,
        longest: 0,
        panicked: false,
        fired: false,
        states: 0,
        after: 0,
        ended: false,
        bad: None,
    };
    let seen = Arc::new(Mutex::new(0));
    let st = Arc::new(Mutex::new(FwdSt { fault: p.fault, ..Default::default() }));
    let base = live();
    {
        let src = Cyc {
            chars: p.chars.clone(),
            vary: p.vary.clone(),
            pos: 0,
            end: p.end,
            panic_at: p.panic_at,
            seen: seen.clone(),
        };
        let mut parser = Parser::with_builder(Lexer::new(src), Fwd { inner: b, st: st.clone() });
        if p.mode == 1 {
            let mut it = parser.into_iter();
            let mut last = 0;
            loop {
                let r = guarded(|| match it.next() {
                    None => 0,
                    Some(Ok(_)) => 1,
                    Some(Err(_)) => 2,
                });
                if tally(&mut s, p, r.map_err(out), &seen, &mut last, base) {
                    break;
                }
            }
        } else {
            let mut last = 0;
            loop {
                let k = s.results;
                let r = guarded(|| {
                    match p.probes.get(k % p.probes.len().max(1)).copied().unwrap_or(Probe::None) {
                        Probe::None => {}
                        Probe::Word(i) => {
                            parser.peek_reserved_word(words(i));
                        }
                        Probe::Tok(i) => {
                            parser.peek_reserved_token(&toks(i));
                        }
                        Probe::Ws => parser.skip_whitespace(),
                        Probe::Fn => {
                            let _ = parser.maybe_function_declaration();
                        }
                    }
                    match parser.complete_command() {
                        Ok(None) => 0,
                        Ok(Some(_)) => 1,
                        Err(_) => 2,
                    }
                });
                if tally(&mut s, p, r.map_err(out), &seen, &mut last, base) {
                    break;
                }
            }
            for _ in 0..p.more {
                let _ = guarded(|| {
                    let _ = parser.complete_command();
                });
            }
        }
    }
    s.after = live() - base;
    s.fired = lock(&st).fired;
    s.states = lock(&st).names;
    s
}

fn out(o: Out) -> Option<String> {
    match o {
        Out::Injected(_) => None,
        o => Some(o.show()),
    }
}

/// Notes one result; true: the session is over.
fn tally(
    s: &mut Seen,
    p: &Plan,
    r: Result<i32, Option<String>>,
    seen: &Arc<Mutex<usize>>,
    last: &mut usize,
    base: i64,
) -> bool {
    s.results += 1;
    let at = *lock(seen);
    let l = live() - base;
    let n = p.chars.len();
    s.longest = s.longest.max(at - *last);
    *last = at;
    match r {
        Ok(0) => {
            s.ended = true;
            return true;
        }
        Ok(k) => {
            if k == 1 {
                s.commands += 1;
            } else {
                s.errors += 1;
            }
            let x = &mut s.per[at / n];
            *x = (*x).max(l);
        }
        Err(None) => {
            s.panicked = true;
            return true;
        }
        Err(Some(m)) => {
            s.bad = Some(m);
            return true;
        }
    }
    s.results >= p.abandon || s.errors >= p.max_errs
}

fn with_builder(p: &Plan, which: u32) -> Seen {
    match which {
        0 => session(p, EmptyBuilder::new()),
        1 => session(p, StringBuilder::new()),
        2 => session(p, RcBuilder::new()),
        _ => session(p, ArcBuilder::new()),
    }
}

/// Lines which fail without leaving anything open.
const STRAY: &[&str] = &[
    ")\n", "fi\n", ";;\n", "w1 )\n", "| w1\n", "&& w1\n", "}\n", "done\n", "w1 ;;\n", "if fi\n", "w1 &&&& w1\n", "w1 <&x1y\n", "$((+))\n", "${w1!}\n",
    "for 1 in; do w1; done\n", "{ w1 )\n", "( w1 ;; )\n", "w1() w1\n", "`)` w1\n", "\"$(w1 ;;)\" w1\n", "w1 << E1 )\nw1\nE1\n", "w1 <<E1\n$(fi)\nE1\n",
    "case w1 w1\n", "`fi` `w1`\n", "w1 >\n", "w1 | | w1\n",
];

fn c18(c: &mut Ctx) -> Res {
    let long = c.t.chance(55);
    let which = c.t.draw(4);
    let mut text: Vec<char> = Vec::new();
    if long || c.t.chance(50) {
        let size = 1 + c.t.draw(2);
        let mut cfg = if c.t.chance(60) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
        cfg.units += 1;
        let p = gen::program(&mut c.t, cfg);
        let mut from = 0;
        let errs = c.t.chance(35);
        for u in &p.units {
            if errs && c.t.chance(40) {
                text.extend(c.t.pick(STRAY).chars());
                c.cov.add("failing line", 1);
            }
            text.extend(&p.text[from..*u]);
            from = *u;
        }
        if !long {
            text.extend(&p.text[from..]);
        }
    } else {
        text = any_text(c);
    }
    if text.is_empty() {
        text.push('\n');
    }
    c.text("delivered", &text);
    let n = text.len();
    let vary = variable(&text);
    let probes: Vec<Probe> = if c.t.chance(40) {
        let k = 1 + c.t.draw(6);
        (0..k)
            .map(|_| match c.t.below(6) {
                0 | 1 => Probe::Word(c.t.draw(6) as u8),
                2 | 3 => Probe::Tok(c.t.draw(7) as u8),
                4 => Probe::Ws,
                _ => Probe::Fn,
            })
            .collect()
    } else {
        Vec::new()
    };
    let mut p = Plan {
        chars: Arc::new(text),
        vary: Arc::new(vary),
        end: n,
        probes: Arc::new(probes),
        mode: c.t.draw(2),
        panic_at: None,
        fault: None,
        abandon: usize::MAX,
        more: 0,
        max_errs: usize::MAX,
    };
    c.cov.execs += 1;
    if !long {
        match c.t.below(5) {
            0 => p.panic_at = Some(c.t.below(n + 1)),
            1 => p.fault = Some(c.t.draw(30) as u64),
            2 => p.abandon = 1 + c.t.draw(4) as usize,
            3 => p.max_errs = 1,
            _ => {}
        }
        if c.t.chance(30) {
            p.more = 1 + c.t.draw(3);
        }
        if p.mode == 1 {
            p.max_errs = 1;
        }
        // errors repeat at most once per character
        p.abandon = p.abandon.min(2 * n + 10);
        let s = with_builder(&p, which);
        c.log(|| format!("{} results, {} errors, panicked {}, failed {}: {} bytes left", s.results, s.errors, s.panicked, s.fired, s.after));
        if let Some(b) = s.bad {
            return fail("panic", b);
        }
        c.cov.add("source panic", s.panicked as u64);
        c.cov.add("builder failure", s.fired as u64);
        c.cov.add("abandoned", (s.results >= p.abandon) as u64);
        c.cov.nontrivial = s.panicked || s.fired || s.errors > 0;
        c.cov.state(mix2(s.states, s.results as u64));
        c.cov.note(s.states);
        ensure!(
            s.after == 0,
            "leak",
            "{} bytes are still allocated after the parser was dropped ({} results, {} errors, source panic {}, builder failure {})",
            s.after,
            s.results,
            s.errors,
            s.panicked,
            s.fired
        );
        return Ok(());
    }
    let rounds = 12 + c.t.draw(49) as usize;
    let rounds = rounds.min(12.max(12_000 / n));
    p.end = n * rounds;
    if c.t.chance(12) {
        return bare(c, &p, rounds);
    }
    if p.mode == 1 {
        // the iterator ends at the first error
        p.max_errs = 1;
    }
    let s = with_builder(&p, which);
    c.log(|| format!("{} results in {} rounds, {} errors; live bytes per round {:?}", s.results, rounds, s.errors, s.per));
    if let Some(b) = s.bad {
        return fail("panic", b);
    }
    ensure!(s.after == 0, "leak", "{} bytes are still allocated after the parser was dropped", s.after);
    c.cov.add("round", rounds as u64);
    c.cov.sim_time += s.results as u64;
    c.cov.note(mix2(s.states, hash_str("long")));
    c.cov.state(s.states);
    // a command longer than a round is pending text
    if !s.ended || s.longest > 2 * n {
        c.cov.add("session not periodic", 1);
        return Ok(());
    }
    c.cov.nontrivial = s.results >= 100;
    grows(&s.per, rounds)
}

fn grows(per: &[i64], rounds: usize) -> Res {
    let h = rounds / 2;
    let a = per[..h].iter().max().copied().unwrap_or(0);
    let b = per[h..rounds - 1].iter().max().copied().unwrap_or(0);
    ensure!(
        b <= a,
        "accumulates",
        "after {} rounds of the same text at most {} bytes were held between commands, after {} rounds {} (per round: {:?})",
        h,
        a,
        rounds,
        b,
        &per[..rounds]
    );
    Ok(())
}

/// The lexer alone.
fn bare(c: &mut Ctx, p: &Plan, rounds: usize) -> Res {
    let n = p.chars.len();
    let mut per = vec![0i64; rounds + 2];
    let seen = Arc::new(Mutex::new(0));
    let base = live();
    let mut count = 0u64;
    {
        let mut l = Lexer::new(Cyc {
            chars: p.chars.clone(),
            vary: p.vary.clone(),
            pos: 0,
            end: p.end,
            panic_at: None,
            seen: seen.clone(),
        });
        loop {
            let t: Option<Token> = match guarded(|| l.next()) {
                Ok(t) => t,
                Err(o) => return fail("panic", o.show()),
            };
            if t.is_none() {
                break;
            }
            drop(t);
            count += 1;
            let at = *lock(&seen);
            per[at / n] = per[at / n].max(live() - base);
        }
    }
    let after = live() - base;
    ensure!(after == 0, "leak", "{} bytes are still allocated after the lexer was dropped", after);
    c.cov.nontrivial = count >= 100;
    c.cov.add("round", rounds as u64);
    grows(&per, rounds)
}
