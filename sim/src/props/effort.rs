//! C19: what a parse costs.

use super::repl::{Fwd, FwdSt};
use super::Prop;
use crate::alloc::spent;
use crate::api::{toks, words};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::lock;
use crate::tape::{hash_str, mix2, Tape};
use conch_parser::ast::builder::{ArcBuilder, Builder, EmptyBuilder, StringBuilder};
use conch_parser::lexer::Lexer;
use conch_parser::parse::Parser;
use std::sync::{Arc, Mutex};

pub static C19: Prop = Prop {
    id: "C19",
    level: "exploration",
    run: c19,
    quick: 150_000,
    thorough: 6_000_000,
    rule: "a run is either a session (a generated program over and over, with probes) whose cost is taken after k and after 2k rounds, or a construct repeated or nested k and 2k times, or one text (generated with one dimension stretched, cut, corrupted, spliced, or a construct repeated or nested up to hundreds of times), parsed to its end through all its errors, possibly with a builder that fails; its cost is compared with its length; cost is heap bytes plus allocations, counted exactly by the simulated process's allocator; non-trivial: at least 200 characters or ten rounds",
};

/// A source that allocates nothing.
struct Rep {
    chars: Arc<Vec<char>>,
    pos: usize,
    left: usize,
    hint: bool,
}
impl Iterator for Rep {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let x = self.chars[self.pos];
        self.pos = (self.pos + 1) % self.chars.len();
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint {
            (self.left, Some(self.left))
        } else {
            (0, None)
        }
    }
}

struct Bill {
    cost: u64,
    results: u64,
    errors: u64,
    failed: bool,
    bad: Option<String>,
}

#[derive(Clone, Copy)]
struct Way {
    which: u32,
    probes: bool,
    iter: bool,
    hint: bool,
    fault: Option<u64>,
}

fn step<I: Iterator<Item = conch_parser::token::Token>, B: Builder>(p: &mut Parser<I, B>, probes: bool) -> i32 {
    if probes {
        p.peek_reserved_word(words(0));
        p.peek_reserved_token(&toks(3));
    }
    match p.complete_command() {
        Ok(None) => 0,
        Ok(Some(_)) => 1,
        Err(_) => 2,
    }
}

fn pay<B: Builder>(chars: &Arc<Vec<char>>, rounds: usize, b: B, w: Way) -> Bill
where
    B::Error: std::fmt::Debug,
{
    let n = chars.len() * rounds;
    let mut s = Bill { cost: 0, results: 0, errors: 0, failed: false, bad: None };
    let st = Arc::new(Mutex::new(FwdSt { fault: w.fault, ..Default::default() }));
    let from = spent();
    {
        let src = Rep { chars: chars.clone(), pos: 0, left: n, hint: w.hint };
        let mut p = Parser::with_builder(Lexer::new(src), Fwd { inner: b, st: st.clone() });
        let mut tally = |r: Result<i32, Out>| match r {
            Ok(0) => true,
            Ok(k) => {
                s.results += 1;
                s.errors += (k == 2) as u64;
                if s.results > 2 * n as u64 + 10 {
                    s.bad = Some("no end in sight".into());
                }
                s.bad.is_some()
            }
            Err(o) => {
                s.bad = Some(o.show());
                true
            }
        };
        if w.iter {
            let mut it = p.into_iter();
            while !tally(guarded(|| match it.next() {
                None => 0,
                Some(Ok(_)) => 1,
                Some(Err(_)) => 2,
            })) {}
        } else {
            while !tally(guarded(|| step(&mut p, w.probes))) {}
        }
    }
    s.cost = spent() - from;
    s.failed = lock(&st).fired;
    s
}

fn bill(c: &mut Ctx, chars: &Arc<Vec<char>>, rounds: usize, w: Way) -> Result<Bill, Fail> {
    c.cov.execs += 1;
    let b = match w.which {
        0 => pay(chars, rounds, EmptyBuilder::new(), w),
        1 => pay(chars, rounds, StringBuilder::new(), w),
        _ => pay(chars, rounds, ArcBuilder::new(), w),
    };
    c.cov.sim_time += b.cost;
    c.cov.add("builder failure", b.failed as u64);
    c.cov.add("error passed", b.errors);
    match b.bad {
        Some(m) => fail("panic", m),
        None => Ok(b),
    }
}

fn c19(c: &mut Ctx) -> Res {
    match c.t.weighted(&[30, 20, 50]) {
        0 => session(c),
        1 => growth(c),
        _ => text(c),
    }
}

/// Twice as long a session costs twice as much at most.
fn session(c: &mut Ctx) -> Res {
    let size = 1 + c.t.draw(2);
    let mut cfg = if c.t.chance(60) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
    cfg.units += 1;
    let p = gen::program(&mut c.t, cfg);
    let end = p.units.last().copied().unwrap_or(0);
    if end == 0 {
        return Ok(());
    }
    let text = p.text[..end].to_vec();
    c.text("delivered", &text);
    let text = Arc::new(text);
    let w = Way { which: c.t.draw(2), probes: c.t.chance(30), iter: c.t.chance(30), hint: c.t.chance(50), fault: None };
    let k = (4 + c.t.draw(36) as usize).min(4.max(20_000 / end));
    let a = bill(c, &text, k, w)?;
    let b = bill(c, &text, 2 * k, w)?;
    c.log(|| format!("{} rounds cost {}, {} cost {}", k, a.cost, 2 * k, b.cost));
    c.cov.add("round", 3 * k as u64);
    c.cov.nontrivial = k >= 10;
    c.cov.state(mix2(a.cost, k as u64));
    c.cov.note(mix2(hash_str("session"), a.cost));
    if a.errors > 0 || b.results != 2 * a.results {
        c.cov.add("session not periodic", 1);
        return Ok(());
    }
    ensure!(
        b.cost <= 2 * a.cost + a.cost / 50 + 500,
        "slows-down",
        "{} rounds of the same text cost {}, but {} rounds {}",
        k,
        a.cost,
        2 * k,
        b.cost
    );
    Ok(())
}

/// A command in, a command out.
const NEST: &[(&str, &str)] = &[
    ("(", ")"),
    ("{ ", "; }"),
    ("if ", "; then a; fi"),
    ("if a; then b; elif ", "; then c; else d; fi"),
    ("while a; do ", "; done"),
    ("until ", "\ndo b\ndone"),
    ("for i in a b; do ", "; done"),
    ("case a in b|c) ", ";; esac"),
    ("f() { ", "; }"),
    ("function f ( ", ")"),
    ("echo $(", ")"),
    ("echo \"$(", ")\""),
    ("x=$(", ") "),
    ("echo ${x:-$(", ")}"),
    ("echo \"${x##$(", ")}\""),
    ("a && { ", "; } || b"),
    ("! a | (", ") | b"),
    ("cat <<E\n$(", ")\nE\n"),
    ("cat <<-E >$(", ")\n\tb\n\tE\n"),
    ("$(", "\n# c\n\n)"),
    ("a >\"$(", ")\""),
    ("echo $((${x:-$(", ")} + 1))"),
    ("echo `", "`"),
];
/// What may be repeated, and in what.
const UNITS: &[&str] = &[
    "a ", "a\n", "a;", "a | ", "a && ", "x=1 ", ">f ", "2>&1 ", "# c\n", "\n", " ", "\\\n", "$x", "${x}", "$(a)", "`a`", "'a'", "\"a\"", "\\a",
    "a=", "b) c;;\n", "elif a; then b; ", "$((1))", "1 + ", "1 ? ", "x = ", "- ", "(", ")", "$((", "\"", "'", "`", "$(", "${", "${x:-", "<<E ", "<<E\n",
    "<<-E a\n\tb\n\tE\n", "<<'E'\n", "E\n", "\t", "\u{e9}", "\u{65e5}\u{672c} ", "*", "if ", "then ", "do ", "! ", "{ ", "} ", "f() ", "for i ", "case ", ";;",
    "\r\n", "\\\\", "\\`", "$", "$1", "[", "~", "a&", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("", "\n"),
    ("echo ", "\n"),
    ("(", ")\n"),
    ("{ ", " }\n"),
    ("echo \"", "\"\n"),
    ("echo '", "'\n"),
    ("echo $(", ")\n"),
    ("echo `", "`\n"),
    ("echo ${x:-", "}\n"),
    ("echo \"${x%", "}\"\n"),
    ("echo $((", "1))\n"),
    ("case a in ", "esac\n"),
    ("if a; then b; ", "fi\n"),
    ("for i in ", "; do a; done\n"),
    ("cat <<E\n", "\nE\n"),
    ("cat <<-'E'\n", "\n\tE\n"),
    ("cat <<E ", "\nb\nE\n"),
    ("# ", "\n"),
    ("cat <<\"", "\"\n"),
];

/// What comes before, what is repeated, how often at most, what follows.
struct Rpt {
    pre: &'static str,
    unit: String,
    max: u32,
    post: &'static str,
}
impl Rpt {
    fn text(&self, k: usize) -> String {
        format!("{}{}{}", self.pre, self.unit.repeat(k), self.post)
    }
}

fn unit(t: &mut Tape) -> Rpt {
    let mut u = String::new();
    for _ in 0..1 + t.draw(2) {
        if t.chance(80) {
            u += *t.pick(UNITS);
        } else {
            u += crate::toks::any_token(t).as_str();
        }
    }
    let (pre, post) = *t.pick(AROUND);
    // whatever may nest is held to what a stack can take
    let deep = u.contains(|x: char| "({`\"'".contains(x)) || ["if", "for", "case", "while", "until", "do", "function", "then", "elif"].iter().any(|w| u.contains(w));
    let max = if deep || pre.contains("((") {
        60
    } else if u.contains("<<") {
        300
    } else {
        2_000
    };
    Rpt { pre, unit: u, max, post }
}

fn repeated(t: &mut Tape) -> String {
    let r = unit(t);
    let k = match t.below(3) {
        0 => 2 + t.draw(30),
        1 => r.max / 4 + t.draw(r.max / 4),
        _ => r.max / 2 + t.draw(r.max / 2),
    };
    r.text(k as usize)
}

/// Twice as much of the same costs twice as much at most.
fn growth(c: &mut Ctx) -> Res {
    if c.t.chance(35) {
        let p = period(&mut c.t);
        let k = 4 * (1 + c.t.draw(10 / p.len() as u32)) as usize;
        let closed = c.t.chance(70);
        let f = |k| nest(&p, k, if closed { k } else { 0 });
        return twice(c, f(k), f(2 * k), k, &format!("{:?}", p));
    }
    let r = unit(&mut c.t);
    // a multiple of four, for what is closed by every other one
    let k = 4 * (1 + r.max / 32 + c.t.draw(r.max / 11)) as usize;
    twice(c, r.text(k), r.text(2 * k), k, &format!("{:?}", (r.pre, &r.unit, r.post)))
}

fn twice(c: &mut Ctx, x: String, y: String, k: usize, what: &str) -> Res {
    let w = Way { which: c.t.draw(2), probes: c.t.chance(20), iter: c.t.chance(20), hint: c.t.chance(50), fault: None };
    let captured = x.contains("<<");
    let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
    c.text("delivered", &y);
    let a = bill(c, &Arc::new(x), 1, w)?;
    let b = bill(c, &Arc::new(y), 1, w)?;
    c.log(|| format!("{} of {} cost {}, {} cost {}", k, what, a.cost, 2 * k, b.cost));
    c.cov.nontrivial = k >= 10;
    c.cov.note(mix2(b.cost, a.cost));
    // every here-document captures what is left of its line
    let num = if captured { 45 } else { 25 };
    ensure!(b.cost <= a.cost / 10 * num + 5_000, "grows", "{} times {} cost {}, but {} times {}", k, what, a.cost, 2 * k, b.cost);
    Ok(())
}

type Period = Vec<(&'static str, &'static str)>;

fn period(t: &mut Tape) -> Period {
    (0..1 + t.draw(2)).map(|_| *t.pick(NEST)).collect()
}

/// Every here-document has a delimiter of its own.
fn nest(period: &Period, k: usize, close: usize) -> String {
    let mut s = String::new();
    let eof = |i: usize| format!("E{:03}", i);
    for i in 0..k {
        for (p, _) in period {
            s += &p.replace('E', &eof(i));
        }
    }
    s += "a";
    for i in (k - close..k).rev() {
        for (_, e) in period.iter().rev() {
            s += &e.replace('E', &eof(i));
        }
    }
    s + "\n"
}

fn nested(t: &mut Tape) -> String {
    let period = period(t);
    let k = (2 + t.draw(90) as usize) / period.len();
    // closed, or nearly, or not at all
    let close = if t.chance(60) { k } else { t.below(k + 1) };
    nest(&period, k, close)
}

/// Cost and length of one text.
fn text(c: &mut Ctx) -> Res {
    let text: Vec<char> = match c.t.below(6) {
        0 => {
            let size = 1 + c.t.draw(c.size.min(3));
            let cfg = Cfg::draw(&mut c.t, size);
            gen::program(&mut c.t, cfg).text
        }
        1 => super::errs::any_text(c),
        2 | 3 => nested(&mut c.t).chars().collect(),
        _ => repeated(&mut c.t).chars().collect(),
    };
    let text = if c.t.chance(20) { corrupt(&mut c.t, &text, &mut c.cov) } else { text };
    c.text("delivered", &text);
    if text.is_empty() {
        return Ok(());
    }
    let n = text.len();
    let docs = text.windows(2).filter(|w| w == &['<', '<']).count();
    let text = Arc::new(text);
    let w = Way {
        which: c.t.draw(2),
        probes: c.t.chance(20),
        iter: c.t.chance(20),
        hint: c.t.chance(50),
        fault: if c.t.chance(15) { Some(c.t.draw(60) as u64) } else { None },
    };
    let b = bill(c, &text, 1, w)?;
    c.log(|| format!("{} characters cost {} ({} results, {} errors)", n, b.cost, b.results, b.errors));
    c.cov.nontrivial = n >= 200;
    c.cov.state(mix2(b.cost, n as u64));
    c.cov.note(mix2(b.cost, b.results));
    let bound = PER_CHAR * (n as u64 + 60) * (4 + docs as u64) / 4;
    ensure!(b.cost <= bound, "excessive", "{} characters with {} here-documents cost {}, more than {}", n, docs, b.cost, bound);
    Ok(())
}

/// Several times what any text costs.
const PER_CHAR: u64 = 20_000;
