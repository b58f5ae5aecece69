//! Shared machinery of the property runs.

use crate::gen::Prog;
use crate::rec::*;
use crate::tape::{hash_str, mix2, Tape};
use crate::tree::N;
use crate::wire::*;
use conch_parser::ast::builder::Builder;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, SourcePos};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { return $crate::common::fail($class, format!($($a)*)); }
    };
}

/// What a run covered.
#[derive(Default, Clone)]
pub struct Cov {
    pub counts: BTreeMap<&'static str, u64>,
    pub hist: u64,
    pub nontrivial: bool,
    pub sim_time: u64,
    pub execs: u64,
    /// Hashes of states reached (see DESIGN.md for the measure).
    pub states: Vec<u64>,
    pub sample: String,
}
impl Cov {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn note(&mut self, h: u64) {
        self.hist = mix2(self.hist, h);
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4000 {
            self.states.push(h);
        }
    }
}

pub struct Ctx {
    pub t: Tape,
    pub cov: Cov,
    pub tracing: bool,
    pub trace: Vec<String>,
    /// 1 quick, larger for the thorough tier.
    pub size: u32,
}
impl Ctx {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 4000 {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn program(&mut self, p: &Prog) {
        self.text("program", &p.text);
        if let Some((d, _)) = p.stretched {
            self.cov.add(d.label(), 1);
        }
    }
    pub fn text(&mut self, what: &str, t: &[char]) {
        let s: String = t.iter().collect();
        self.cov.note(hash_str(&s));
        if self.cov.sample.is_empty() {
            self.cov.sample = s.clone();
        }
        let what = what.to_string();
        self.log(|| format!("{} {:?}", what, s));
    }
}

/// Offsets of a delivered text.
pub struct PosTab {
    pub byte: Vec<usize>,
    pub line: Vec<usize>,
    colb: Vec<usize>,
    colc: Vec<usize>,
    by_byte: BTreeMap<usize, usize>,
    text: String,
}
impl PosTab {
    pub fn new(t: &[char]) -> PosTab {
        let (mut b, mut l, mut cb, mut cc) = (0, 1, 1, 1);
        let mut r = PosTab {
            byte: vec![],
            line: vec![],
            colb: vec![],
            colc: vec![],
            by_byte: BTreeMap::new(),
            text: t.iter().collect(),
        };
        for i in 0..=t.len() {
            r.byte.push(b);
            r.line.push(l);
            r.colb.push(cb);
            r.colc.push(cc);
            r.by_byte.insert(b, i);
            if i < t.len() {
                b += t[i].len_utf8();
                if t[i] == '\n' {
                    l += 1;
                    cb = 1;
                    cc = 1;
                } else {
                    cb += t[i].len_utf8();
                    cc += 1;
                }
            }
        }
        r
    }
    /// The character offset of a consistent position.
    pub fn find(&self, p: SourcePos) -> Result<usize, String> {
        match self.by_byte.get(&p.byte) {
            None => Err(format!("{:?} is not a character boundary of the delivered text", p)),
            Some(&i) => {
                if self.line[i] != p.line {
                    Err(format!("{:?}: byte {} is on line {}", p, p.byte, self.line[i]))
                } else if p.col != self.colb[i] && p.col != self.colc[i] {
                    Err(format!("{:?}: byte {} is in column {}", p, p.byte, self.colb[i]))
                } else {
                    Ok(i)
                }
            }
        }
    }
    pub fn at(&self, byte: usize) -> &str {
        self.text.get(byte..).unwrap_or("")
    }
}

pub type RecParser = Parser<Lexer<Src>, Rec>;

pub enum Out {
    Cmd(N),
    End,
    Err(ParseError<BErr>),
    /// A panic that is not one of ours.
    Panic(String),
    /// Our own injected panic came out.
    Injected(SimPanic),
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Cmd(n) => format!("command {}", n.exact()),
            Out::End => "end".into(),
            Out::Err(e) => format!("error {:?}", e),
            Out::Panic(s) => format!("PANIC {}", s),
            Out::Injected(p) => format!("injected panic {}", p.0),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Cmd(n) => format!("command {}", clip(&n.canon(), 160)),
            o => clip(&o.show(), 300),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// Runs `f`, sorting panics into injected ones, foreign ones and our own
/// assertion failures (which are passed on).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Out> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(s) = p.downcast_ref::<SimPanic>() {
                return Err(Out::Injected(s.clone()));
            }
            let (loc, msg) = crate::last_panic();
            if crate::is_harness_location(&loc) {
                std::panic::resume_unwind(p);
            }
            Err(Out::Panic(format!("{} at {}", msg, loc)))
        }
    }
}

pub fn step<I, B>(p: &mut Parser<I, B>) -> Out
where
    I: Iterator<Item = conch_parser::token::Token>,
    B: Builder<Command = H, Error = BErr>,
{
    match guarded(|| p.complete_command()) {
        Ok(Ok(Some(h))) => Out::Cmd(h.deliver()),
        Ok(Ok(None)) => Out::End,
        Ok(Err(e)) => Out::Err(e),
        Err(o) => o,
    }
}

/// One simulated parser with its wire and builder.
pub struct Rig {
    pub w: WireRef,
    pub st: Shared,
    pub p: RecParser,
}
impl Rig {
    pub fn new(text: Arc<Vec<char>>) -> Rig {
        Rig::on(wire(text))
    }
    pub fn on(w: WireRef) -> Rig {
        let (b, st) = Rec::new();
        let p = Parser::with_builder(Lexer::new(Src(w.clone())), b);
        Rig { w, st, p }
    }
    pub fn next(&mut self) -> Out {
        step(&mut self.p)
    }
    pub fn read(&self) -> usize {
        lock(&self.w).pos
    }
}

/// A finished parse: everything up to and including the first error or end.
pub struct History {
    pub outs: Vec<Out>,
    pub pos: Vec<SourcePos>,
    pub st: Shared,
    pub w: WireRef,
}
impl History {
    pub fn cmds(&self) -> Vec<&N> {
        self.outs
            .iter()
            .filter_map(|o| if let Out::Cmd(n) = o { Some(n) } else { None })
            .collect()
    }
    pub fn exact(&self) -> Vec<String> {
        self.cmds().iter().map(|n| n.exact()).collect()
    }
    pub fn last(&self) -> &Out {
        self.outs.last().unwrap()
    }
    pub fn ended(&self) -> bool {
        matches!(self.last(), Out::End)
    }
}

/// Drives a rig until end or error; more results than source characters can
/// give is a violation of progress.
pub fn run(rig: &mut Rig, cov: &mut Cov) -> Result<History, Fail> {
    let n = lock(&rig.w).chars.len();
    let mut outs = Vec::new();
    let mut pos = Vec::new();
    cov.execs += 1;
    loop {
        let o = rig.next();
        pos.push(rig.p.pos());
        cov.state(mix2(hash_str(&o.show()), rig.read() as u64));
        let stop = !matches!(o, Out::Cmd(_));
        if let Out::Panic(s) = &o {
            return fail("panic", s.clone());
        }
        outs.push(o);
        if stop {
            break;
        }
        if outs.len() > n + 2 {
            return fail("no-progress", format!("{} commands from {} characters", outs.len(), n));
        }
    }
    cov.sim_time += lock(&rig.w).clock;
    Ok(History { outs, pos, st: rig.st.clone(), w: rig.w.clone() })
}

/// The same through the iterator; afterwards it must stay silent.
pub fn run_iter(rig: Rig, cov: &mut Cov) -> Result<History, Fail> {
    let Rig { w, st, p } = rig;
    let n = lock(&w).chars.len();
    let mut it = p.into_iter();
    let mut outs = Vec::new();
    cov.execs += 1;
    loop {
        let o = match guarded(|| it.next()) {
            Ok(Some(Ok(h))) => Out::Cmd(h.deliver()),
            Ok(Some(Err(e))) => Out::Err(e),
            Ok(None) => Out::End,
            Err(o) => o,
        };
        cov.state(mix2(hash_str(&o.show()), lock(&w).pos as u64));
        let stop = !matches!(o, Out::Cmd(_));
        if let Out::Panic(s) = &o {
            return fail("panic", s.clone());
        }
        outs.push(o);
        if stop {
            break;
        }
        if outs.len() > n + 2 {
            return fail("no-progress", format!("{} commands from {} characters", outs.len(), n));
        }
    }
    if !matches!(outs.last(), Some(Out::Injected(_))) {
        for _ in 0..2 {
            match guarded(|| it.next()) {
                Ok(None) => {}
                Ok(Some(_)) => return fail("not-fused", "the iterator went on after an error or its end"),
                Err(o) => return fail("panic", o.show()),
            }
        }
    }
    cov.sim_time += lock(&w).clock;
    Ok(History { outs, pos: Vec::new(), st, w })
}

/// Drives by repeated calls, or through the iterator.
pub fn run_either(mut rig: Rig, iter: bool, cov: &mut Cov) -> Result<History, Fail> {
    if iter {
        run_iter(rig, cov)
    } else {
        run(&mut rig, cov)
    }
}

/// Comments handed to `Builder::comments`.
pub fn comment_log(st: &Shared) -> Vec<String> {
    lock(st).comments.iter().flat_map(|n| n.k.iter()).filter(|x| x.t == "#").map(|x| x.s.clone()).collect()
}

pub fn run_text(text: &[char], cov: &mut Cov) -> Result<History, Fail> {
    let mut r = Rig::new(Arc::new(text.to_vec()));
    run(&mut r, cov)
}

/// Checks a parse of a well-formed program against what was written.
pub fn check_expected(p: &Prog, h: &History, upto: usize) -> Res {
    let got = h.cmds();
    for (i, t) in p.tops.iter().enumerate().take(upto) {
        if i >= got.len() {
            return fail(
                "missing-command",
                format!("command {} was not delivered; instead: {}; expected {}", i, h.last().brief(), clip(&t.n.canon(), 400)),
            );
        }
        let (e, g) = (t.n.canon(), got[i].canon());
        ensure!(e == g, "altered-command", "command {}: {}", i, crate::tree::diff(&e, &g));
    }
    Ok(())
}

/// Draws arrival times for the characters of a wire.
pub fn arrivals(t: &mut Tape, n: usize) -> Vec<u64> {
    match t.below(4) {
        0 => Vec::new(),
        1 => {
            let step = 1 + t.draw(50) as u64;
            (0..n as u64).map(|i| i * step).collect()
        }
        2 => {
            // bursts
            let mut v = Vec::with_capacity(n);
            let mut at = 0u64;
            let mut left = 0;
            for _ in 0..n {
                if left == 0 {
                    left = 1 + t.draw(40);
                    at += t.draw(100_000) as u64;
                }
                left -= 1;
                v.push(at);
            }
            v
        }
        _ => {
            let hole = t.below(n.max(1)) as usize;
            (0..n).map(|i| if i >= hole { 3_600_000 } else { 0 }).collect()
        }
    }
}

/// Text after a fault on the wire.
pub fn corrupt(t: &mut Tape, text: &[char], cov: &mut Cov) -> Vec<char> {
    const POOL: &[&str] = &[
        "\"", "'", "`", "$(", "${", "$((", "(", ")", "{", "}", "\n", ";", ";;", "&", "&&", "||", "|", "<", ">", "<<", "<<-",
        ">|", ">&", "<&", "\\", "#", "!", " do ", " done ", " fi ", " esac ", " then ", " else ", " elif ", " in ", "if ", "while ",
        "until ", "for ", "case ", "function ", "=", "*", "$", "0", " ", "\t", "\r\n", "\u{e9}", "\u{1F600}", "\u{0}", "E1", "))", "~",
        "99999999999999999999999", "4294967296", "65536", "0x8000000000000000", "08", "<<E\n", "<<'\u{e9}'\n", "${#", "${x", ":-", "-", "\\\n",
        "2>", "1", "\u{85}", "\u{2028}", "\u{1a}", "\u{4}", "\u{1b}", "\u{7f}", "\u{feff}", "\u{661}", "\u{10ffff}", "\r", "++", "--", "?", ":", "==", "/", "%%", "[", "]", "\\\\", "#x\n", "a=", "()", "{ ", "; }",
    ];
    let mut v = text.to_vec();
    let k = 1 + t.weighted(&[50, 30, 15, 5]);
    for _ in 0..k {
        let n = v.len();
        let i = t.below(n + 1);
        match t.below(8) {
            0 => {
                v.truncate(i);
                cov.add("cut", 1);
            }
            6 => {
                v.truncate(i);
                v.extend(t.pick(POOL).chars());
                cov.add("cut", 1);
            }
            7 => {
                if i < n {
                    let d = vec![v[i]; 1 + t.draw(40) as usize];
                    v.splice(i..i, d);
                }
                cov.add("duplication", 1);
            }
            1 => {
                let s = *t.pick(POOL);
                v.splice(i..i, s.chars());
                cov.add("insertion", 1);
            }
            2 => {
                let e = (i + 1 + t.below(4)).min(n);
                if i < e {
                    v.drain(i..e);
                }
                cov.add("loss", 1);
            }
            3 => {
                let e = (i + 1 + t.below(12)).min(n);
                if i < e {
                    let d: Vec<char> = v[i..e].to_vec();
                    v.splice(e..e, d);
                }
                cov.add("duplication", 1);
            }
            4 => {
                if i < n {
                    let s = *t.pick(POOL);
                    v.splice(i..i + 1, s.chars());
                }
                cov.add("garbling", 1);
            }
            _ => {
                let a = (i + 1 + t.below(8)).min(n);
                let b = (a + 1 + t.below(8)).min(n);
                if i < a && a < b {
                    v[i..b].rotate_left(a - i);
                }
                cov.add("reordering", 1);
            }
        }
    }
    v
}

/// The generic part of "errors point at the true place".
pub fn check_error<E: Debug>(e: &ParseError<E>, tab: &PosTab) -> Res {
    use ParseError::*;
    let place = |p: SourcePos| -> Result<usize, Fail> {
        match tab.find(p) {
            Ok(i) => Ok(i),
            Err(s) => fail("inconsistent-position", format!("{:?}: {}", e, s)),
        }
    };
    let verbatim = |s: &str, p: SourcePos| -> Res {
        place(p)?;
        ensure!(
            tab.at(p.byte).starts_with(s),
            "wrong-place",
            "{:?}: the text there is {:?}",
            e,
            clip(tab.at(p.byte), 20)
        );
        Ok(())
    };
    match e {
        BadFd(a, b) => {
            let (x, y) = (place(*a)?, place(*b)?);
            ensure!(x <= y, "wrong-place", "{:?}: start after end", e);
            Ok(())
        }
        BadIdent(s, p) => verbatim(s, *p),
        BadSubst(t, p) | Unmatched(t, p) | Unexpected(t, p) => verbatim(t.as_str(), *p),
        IncompleteCmd(c, s, _, k) => {
            verbatim(c, *s)?;
            let (x, y) = (place(*s)?, place(*k)?);
            ensure!(x <= y, "wrong-place", "{:?}: the missing keyword is placed before the command", e);
            Ok(())
        }
        UnexpectedEOF | Custom(_) => Ok(()),
    }
}
