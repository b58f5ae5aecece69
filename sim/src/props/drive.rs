//! C16, C17: looking ahead, and the many ways to drive and feed a parse.

use super::errs::any_text;
use super::Prop;
use crate::api::{call, words, Op, Ret, TOKS, WORDS};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::{cm, lock, BErr, Rec, Shared, H};
use crate::tape::{hash_str, mix2};
use crate::toks::*;
use crate::wire::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{CommandGroupDelimiters, ParseError, Parser, SourcePos};
use conch_parser::token::Token;
use std::sync::Arc;

pub static C16: Prop = Prop {
    id: "C16",
    level: "exploration",
    run: c16,
    quick: 750_000,
    thorough: 15_000_000,
    rule: "a run is a delivered text (or token soup) and a history of parsing calls, made once as it is and once with random probes (reserved words and tokens, blanks skipped, absent functions and newlines, position) before each call; every result, error, position and builder call is compared, and yes-answers are confirmed by the consuming call; non-trivial: at least three probes and one result besides the end",
};

fn text_for(c: &mut Ctx) -> Vec<char> {
    let t = if c.t.chance(65) {
        let size = 1 + c.t.draw(c.size.min(3));
        let cfg = if c.t.chance(50) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
        gen::program(&mut c.t, cfg).text
    } else {
        any_text(c)
    };
    c.text("delivered", &t);
    t
}

/// Where a character feed comes from.
fn feed(c: &mut Ctx, text: &Arc<Vec<char>>) -> Box<dyn Iterator<Item = Token>> {
    let w = wire(text.clone());
    let a = arrivals(&mut c.t, text.len());
    lock(&w).arrivals = a;
    Box::new(Lexer::new(Src(w)))
}

struct Call {
    out: String,
    pos: SourcePos,
    hash: u64,
    err: bool,
    end: bool,
}

fn one<I: Iterator<Item = Token>>(p: &mut Parser<I, Rec>, st: &Shared, op: Op) -> Result<Call, Fail> {
    let r = call(p, op, st);
    if let Ret::Panic(s) = &r {
        return fail("panic", format!("{:?}: {}", op, s));
    }
    let hash = lock(st).hash();
    Ok(Call {
        out: r.show(),
        pos: p.pos(),
        hash,
        err: matches!(r, Ret::Err(_)),
        end: op == Op::Complete && matches!(r, Ret::Nothing),
    })
}

const BASE: &[Op] = &[
    Op::Complete,
    Op::AndOr,
    Op::Pipeline,
    Op::Command,
    Op::Simple,
    Op::Word,
    Op::Group(0),
    Op::Linebreak,
    Op::Redirect,
    Op::Compound,
];

fn blank(s: &str) -> bool {
    let mut it = s.chars().peekable();
    while let Some(x) = it.next() {
        match x {
            x if x != '\n' && x.is_whitespace() => {}
            '\\' if it.peek() == Some(&'\n') => {
                it.next();
            }
            _ => return false,
        }
    }
    true
}
fn after_blanks(mut s: &str) -> &str {
    loop {
        if let Some(r) = s.strip_prefix(|x: char| x != '\n' && x.is_whitespace()) {
            s = r;
        } else if let Some(r) = s.strip_prefix("\\\n") {
            s = r;
        } else {
            return s;
        }
    }
}
/// Could a function declaration stand here?
fn fn_like(s: &str) -> bool {
    let s = after_blanks(s);
    let n = s.trim_start_matches(|x: char| x.is_alphanumeric() || x == '_');
    s.len() > n.len() && (n.trim_start_matches(|x: char| x.is_whitespace()).starts_with('(') || s.starts_with("function"))
}

/// What stands at each offset of the delivered text.
struct Ahead {
    toks: Vec<(usize, Token)>,
    heredocs: bool,
}

impl Ahead {
    fn new(toks: Vec<Token>) -> Ahead {
        let mut at = 0;
        let heredocs = toks.iter().any(|t| matches!(t, Token::DLess | Token::DLessDash));
        let toks = toks
            .into_iter()
            .map(|t| {
                let a = at;
                at += t.as_str().len();
                (a, t)
            })
            .collect();
        Ahead { toks, heredocs }
    }
    fn past_blanks(&self, mut i: usize) -> usize {
        loop {
            match (self.toks.get(i), self.toks.get(i + 1)) {
                (Some((_, Token::Whitespace(_))), _) => i += 1,
                (Some((_, Token::Backslash)), Some((_, Token::Newline))) => i += 2,
                _ => return i,
            }
        }
    }
    /// May the token after this one be told from the text? (It may be a
    /// here-document's first line.)
    fn known(&self, i: usize) -> bool {
        !(self.heredocs && matches!(self.toks.get(i), Some((_, Token::Newline))))
    }
    fn delimited(&self, i: usize) -> bool {
        use Token::*;
        match self.toks.get(i + 1) {
            None => true,
            Some((_, t)) => matches!(
                t,
                Newline | ParenOpen | ParenClose | Semi | Amp | Pipe | AndIf | OrIf | DSemi | Less | Great | DLess | DGreat | LessAnd
                    | GreatAnd | DLessDash | Clobber | LessGreat | Whitespace(_)
            ),
        }
    }
    /// A lookup for what comes next.
    fn apt(&self, c: &mut Ctx, byte: usize) -> Option<Op> {
        let i = self.toks.iter().position(|(a, _)| *a == byte)?;
        let j = if c.t.chance(25) { i } else { self.past_blanks(i) };
        let t = &self.toks.get(j)?.1;
        let mut l: Vec<Op> = (0..TOKS).filter(|l| crate::api::toks(*l).contains(t)).map(Op::PeekTok).collect();
        l.extend((0..WORDS.len() as u8).filter(|w| words(*w).contains(&t.as_str())).map(Op::PeekWord));
        if l.is_empty() {
            return None;
        }
        Some(*c.t.pick(&l))
    }
    /// What a reserved word or token lookup at this offset has to find:
    /// unknown, nothing, or the word or token.
    fn answer(&self, op: Op, byte: usize) -> Option<Option<String>> {
        let mut it = self.toks.iter().enumerate().filter(|(_, (a, _))| *a == byte);
        let i = match (it.next(), it.next()) {
            (Some((i, (_, t))), None) if !t.as_str().is_empty() => i,
            (None, _) if self.toks.last().map_or(0, |(a, t)| a + t.as_str().len()) == byte => self.toks.len(),
            _ => return None,
        };
        let j = self.past_blanks(i);
        if self.heredocs && self.toks[i..j].iter().any(|(_, t)| *t == Token::Newline) {
            return None;
        }
        match op {
            Op::PeekWord(w) | Op::ResWord(w) => {
                let found = match self.toks.get(j) {
                    Some((_, Token::Name(s))) | Some((_, Token::Literal(s))) => words(w).iter().any(|w| w == s).then(|| s.clone()),
                    _ => None,
                };
                Some(found.filter(|_| self.delimited(j)))
            }
            Op::PeekTok(l) | Op::ResTok(l) => {
                let list = crate::api::toks(l);
                // a list with blanks in it is looked for before them, too
                for k in if toks_has_ws(l) { [i, j] } else { [j, j] } {
                    match self.toks.get(k) {
                        Some((_, t)) if list.contains(t) => {
                            if !self.known(k) {
                                return None;
                            }
                            if self.delimited(k) {
                                return Some(Some(format!("{:?}", t)));
                            }
                        }
                        _ => {}
                    }
                }
                Some(None)
            }
            _ => None,
        }
    }
    fn check(&self, c: &mut Ctx, op: Op, byte: usize, out: &str, err: bool) -> Res {
        if let Some(want) = self.answer(op, byte) {
            let label = if matches!(op, Op::PeekWord(_) | Op::ResWord(_)) { "kw" } else { "tok" };
            let show = match &want {
                Some(s) => format!("ok {}", crate::tree::N::leaf(label, s.clone()).exact()),
                None => "nothing".into(),
            };
            c.cov.add(if want.is_some() { "expected yes" } else { "expected no" }, 1);
            let same = if matches!(op, Op::ResTok(_)) && want.is_none() { err } else { out == show };
            ensure!(same, "wrong-answer", "{:?} at offset {} answered {} where the text makes it {}", op, byte, clip(out, 80), show);
        }
        Ok(())
    }
}

fn c16(c: &mut Ctx) -> Res {
    let single = if c.t.chance(15) { Some(super::parts::history(c)) } else { None };
    let soupy = single.is_none() && c.t.chance(12);
    let (text, toks) = if let Some((t, _)) = &single {
        c.text("delivered", t);
        (t.clone(), None)
    } else if soupy {
        let v = soup(&mut c.t, 40);
        let t: Vec<char> = v.iter().flat_map(|t| t.as_str().chars().collect::<Vec<_>>()).collect();
        c.text("tokens", &t);
        (t, Some(v))
    } else {
        (text_for(c), None)
    };
    let text = Arc::new(text);
    let whole: String = text.iter().collect();
    let source = |c: &mut Ctx| -> Box<dyn Iterator<Item = Token>> {
        match &toks {
            Some(v) => Box::new(TokSrc(tok_wire(v.clone()))),
            None => feed(c, &text),
        }
    };
    let ahead = Ahead::new(match &toks {
        Some(v) => v.clone(),
        None => Lexer::new(text.iter().copied()).collect(),
    });
    // the history without probes
    let n = if c.t.chance(30) { c.t.draw(10) as usize } else { 0 };
    let mut ops: Vec<Op> = (0..n)
        .map(|_| match c.t.below(12) {
            10 => Op::ResWord(c.t.below(WORDS.len()) as u8),
            11 => Op::ResTok(*c.t.pick(&[0, 1, 3, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17])),
            i => BASE[i],
        })
        .collect();
    if let Some((_, o)) = single {
        ops = o;
    }
    let n = ops.len();
    let mut plain = Vec::new();
    {
        let s = source(c);
        let (b, st) = Rec::new();
        let mut p = Parser::with_builder(s, b);
        let mut i = 0;
        let mut errors = false;
        loop {
            if i == ops.len() {
                ops.push(Op::Complete);
            }
            let from = p.pos().byte;
            let r = one(&mut p, &st, ops[i])?;
            if !errors {
                ahead.check(c, ops[i], from, &r.out, r.err)?;
            }
            errors |= r.err;
            c.log(|| format!("{:?} -> {} at {:?}", ops[i], clip(&r.out, 300), r.pos));
            let stop = i >= n && (r.end || (r.err && c.t.chance(60))) || i > text.len() + n + 3;
            plain.push(r);
            i += 1;
            if stop {
                break;
            }
        }
    }
    c.cov.execs += 2;
    // the same with probes
    let s = source(c);
    let (b, st) = Rec::new();
    let mut p = Parser::with_builder(s, b);
    let dense = c.t.chance(50);
    let mut probes = 0u64;
    let mut errors = false;
    for (i, want) in plain.iter().enumerate() {
        let op = ops[i];
        let k = if dense { 1 + c.t.draw(4) } else { c.t.draw(3) };
        for _ in 0..k {
            let before = p.pos();
            // the blank itself matters to some calls
            if matches!(op, Op::PeekWord(i) | Op::ResWord(i) if words(i).is_empty()) || matches!(op, Op::Pos | Op::Subshell | Op::Parameter | Op::Backtick | Op::Heredoc) || matches!(op, Op::PeekTok(i) | Op::ResTok(i) if toks_has_ws(i) || crate::api::toks(i).is_empty()) {
                let r = whole.get(before.byte..).unwrap_or("");
                if errors || after_blanks(r).len() < r.len() {
                    break;
                }
            }
            let rest = whole.get(before.byte..).unwrap_or("").to_string();
            let pr = match c.t.below(8) {
                7 => ahead.apt(c, before.byte).unwrap_or(Op::PeekWord(0)),
                0 => Op::PeekWord(c.t.below(WORDS.len()) as u8),
                1 => Op::PeekTok(c.t.draw(TOKS as u32 - 1) as u8),
                2 => Op::SkipWs,
                3 => Op::Pos,
                // only where it is known not to be there
                4 if !errors && !soupy && !fn_like(&rest) => Op::MaybeFn,
                5 if !errors && !soupy && !after_blanks(&rest).starts_with(&['\n', '#'][..]) => Op::Newline,
                4 => Op::PeekWord(0),
                5 => Op::PeekTok(4),
                _ => match op {
                    Op::ResWord(x) => Op::PeekWord(x),
                    Op::ResTok(x) => Op::PeekTok(x),
                    _ => Op::PeekTok(3),
                },
            };
            let calls = lock(&st).calls;
            let r = one(&mut p, &st, pr)?;
            probes += 1;
            c.cov.note(hash_str(&format!("{:?}", pr)));
            c.log(|| format!("    probe {:?} -> {} at {:?}", pr, clip(&r.out, 100), r.pos));
            if !errors {
                ahead.check(c, pr, before.byte, &r.out, r.err)?;
            }
            ensure!(!r.err, "probe-error", "probe {:?} before call {} returned {}", pr, i, r.out);
            ensure!(lock(&st).calls == calls, "probe-builds", "probe {:?} before call {} made a builder call", pr, i);
            if matches!(pr, Op::MaybeFn | Op::Newline) {
                ensure!(r.out == "nothing", "false-yes", "probe {:?} before call {} found {} where the text goes on with {:?}", pr, i, r.out, clip(&rest, 30));
            }
            if !errors && !soupy {
                ensure!(r.pos.byte >= before.byte, "probe-moves", "probe {:?} moved the position back from {:?} to {:?}", pr, before, r.pos);
                let gone = whole.get(before.byte..r.pos.byte).unwrap_or("?");
                ensure!(
                    blank(gone),
                    "probe-consumes",
                    "probe {:?} before call {} moved the position over {:?}",
                    pr,
                    i,
                    gone
                );
            }
            // asked again, it answers the same
            if matches!(pr, Op::PeekWord(_)) && c.t.chance(30) {
                let q = one(&mut p, &st, pr)?;
                ensure!(q.out == r.out, "fickle-probe", "probe {:?} before call {}: first {} then {}", pr, i, r.out, q.out);
            }
            // a yes is confirmed by the consuming call
            let (ask, take) = match (op, pr) {
                (Op::ResWord(x), Op::PeekWord(y)) if x == y => (true, true),
                (Op::ResTok(x), Op::PeekTok(y)) if x == y && !toks_has_ws(x) => (true, true),
                _ => (false, false),
            };
            if ask && take {
                let yes = r.out != "nothing";
                let got = match op {
                    Op::ResWord(_) => want.out != "nothing",
                    _ => !want.err,
                };
                ensure!(yes == got, "unconfirmed", "probe {:?} said {} but the consuming call alone says {}", pr, r.out, want.out);
            }
        }
        let r = one(&mut p, &st, op)?;
        ensure!(
            r.out == want.out,
            "changed-result",
            "call {} ({:?}) with {} probes so far: {}",
            i,
            op,
            probes,
            crate::tree::diff(&want.out, &r.out)
        );
        let same = r.pos.byte == want.pos.byte && r.pos == want.pos;
        // a failed call may leave blanks that a probe has already passed
        ensure!(
            same || (want.err || want.out == "nothing") && r.pos.byte >= want.pos.byte && blank(whole.get(want.pos.byte..r.pos.byte).unwrap_or("?")),
            "changed-position",
            "call {} ({:?}): position {:?} instead of {:?}",
            i,
            op,
            r.pos,
            want.pos
        );
        ensure!(r.hash == want.hash, "changed-build", "call {} ({:?}): different builder calls", i, op);
        c.cov.state(mix2(hash_str(&r.out), r.pos.byte as u64));
        errors |= want.err;
    }
    c.cov.add("probe", probes);
    c.cov.nontrivial = probes >= 3 && plain.len() >= 2;
    Ok(())
}

fn toks_has_ws(i: u8) -> bool {
    crate::api::toks(i).iter().any(|t| matches!(t, Token::Whitespace(_)))
}

// ---------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    level: "exploration",
    run: c17,
    quick: 450_000,
    thorough: 10_000_000,
    rule: "a run is a delivered text parsed by repeated calls from a plain lexer, and then through several other feeds (iterator types, borrowed and boxed sources, lying or exact hints, sources that revive, tokens collected beforehand) and drivers (calls, iterator, group, switched part-way); commands, builder calls, first error and final position are compared; non-trivial: at least two results",
};

/// Everything up to the first error or end.
struct Outcome {
    cmds: Vec<String>,
    /// Position after each call where the driver lets one see it.
    pos: Vec<Option<SourcePos>>,
    last: String,
    fin: Option<SourcePos>,
    hash: u64,
    tail: String,
}

fn drive<I: Iterator<Item = Token>>(c: &mut Ctx, s: I, mode: usize, switch: usize, n: usize) -> Result<Outcome, Fail> {
    let (b, st) = Rec::new();
    let mut p = Parser::with_builder(s, b);
    let mut o = Outcome { cmds: vec![], pos: vec![], last: String::new(), fin: None, hash: 0, tail: String::new() };
    let show = |h: H, st: &Shared| -> String {
        let mut u = Vec::new();
        let n = h.take(&mut u);
        crate::rec::settle(st, &u);
        n.exact()
    };
    let err = |e: ParseError<BErr>| format!("error {:?}", e);
    c.cov.execs += 1;
    let mut left = switch;
    // mode 0: calls; 1: calls, then the iterator; 2: calls, then one group
    while mode == 0 || left > 0 {
        match guarded(|| p.complete_command()) {
            Ok(Ok(Some(h))) => {
                o.cmds.push(show(h, &st));
                o.pos.push(Some(p.pos()));
            }
            Ok(Ok(None)) => {
                o.last = "end".into();
                break;
            }
            Ok(Err(e)) => {
                o.last = err(e);
                break;
            }
            Err(x) => return fail("panic", x.show()),
        }
        left = left.saturating_sub(1);
        ensure!(o.cmds.len() <= n + 2, "no-progress", "{} commands from {} characters", o.cmds.len(), n);
    }
    if !o.last.is_empty() {
        o.fin = Some(p.pos());
        o.hash = lock(&st).hash();
        return Ok(o);
    }
    if mode == 1 {
        let mut it = p.into_iter();
        loop {
            match guarded(|| it.next()) {
                Ok(Some(Ok(h))) => {
                    o.cmds.push(show(h, &st));
                    o.pos.push(None);
                }
                Ok(None) => {
                    o.last = "end".into();
                    break;
                }
                Ok(Some(Err(e))) => {
                    o.last = err(e);
                    break;
                }
                Err(x) => return fail("panic", x.show()),
            }
            ensure!(o.cmds.len() <= n + 2, "no-progress", "{} commands from {} characters", o.cmds.len(), n);
        }
        o.hash = lock(&st).hash();
        return Ok(o);
    }
    match guarded(|| p.command_group(CommandGroupDelimiters::default())) {
        Ok(Ok(g)) => {
            let mut u = Vec::new();
            for h in g.commands {
                o.cmds.push(h.take(&mut u).exact());
                o.pos.push(None);
            }
            crate::rec::settle(&st, &u);
            o.tail = cm(g.trailing_comments).exact();
            o.last = "end".into();
        }
        Ok(Err(e)) => o.last = err(e),
        Err(x) => return fail("panic", x.show()),
    }
    o.fin = Some(p.pos());
    o.hash = lock(&st).hash();
    Ok(o)
}

const FEEDS: &[&str] = &[
    "lexer over the wire",
    "lexer over a borrowed wire",
    "lexer over a boxed wire",
    "lexer over a vector",
    "lexer over Chars",
    "borrowed lexer",
    "boxed lexer",
    "collected tokens",
    "collected tokens, not fused",
    "collected tokens, borrowed",
    "collected tokens, filtered",
    "wire that revives",
];

/// The text through feed `f`, driven by `mode`.
fn through(c: &mut Ctx, text: &Arc<Vec<char>>, f: usize, mode: usize, switch: usize) -> Result<Outcome, Fail> {
    let n = text.len();
    let w = wire(text.clone());
    let a = arrivals(&mut c.t, n);
    {
        let mut s = lock(&w);
        s.arrivals = a;
        s.hint = c.t.draw(6) as u8;
    }
    let all = || -> Vec<Token> { Lexer::new(text.iter().copied()).collect() };
    let r = match f {
        0 => drive(c, Lexer::new(Src(w.clone())), mode, switch, n),
        1 => {
            let mut s = Src(w.clone());
            drive(c, Lexer::new(&mut s), mode, switch, n)
        }
        2 => {
            let s: Box<dyn Iterator<Item = char>> = Box::new(Src(w.clone()));
            drive(c, Lexer::new(s), mode, switch, n)
        }
        3 => drive(c, Lexer::new(text.to_vec().into_iter()), mode, switch, n),
        4 => {
            let s: String = text.iter().collect();
            drive(c, Lexer::new(s.chars()), mode, switch, n)
        }
        5 => {
            let mut l = Lexer::new(Src(w.clone()));
            drive(c, &mut l, mode, switch, n)
        }
        6 => {
            let l: Box<dyn Iterator<Item = Token>> = Box::new(Lexer::new(Src(w.clone())));
            drive(c, l, mode, switch, n)
        }
        7 => drive(c, all().into_iter(), mode, switch, n),
        8 => {
            let t = tok_wire(all());
            {
                let mut s = lock(&t);
                s.hint = c.t.draw(6) as u8;
                s.revive = soup(&mut c.t, 6);
            }
            drive(c, TokSrc(t), mode, switch, n)
        }
        9 => {
            let mut it = all().into_iter();
            drive(c, &mut it, mode, switch, n)
        }
        10 => drive(c, all().into_iter().map(|t| t).filter(|_| true), mode, switch, n),
        _ => {
            {
                let mut s = lock(&w);
                s.revive = ['x', '\n', ';', '"', ' '].iter().cycle().skip(c.t.below(5)).take(6).copied().collect();
            }
            drive(c, Lexer::new(Src(w.clone())), mode, switch, n)
        }
    };
    c.cov.sim_time += lock(&w).clock;
    r
}

fn c17(c: &mut Ctx) -> Res {
    let text = Arc::new(text_for(c));
    let base = through(c, &text, 0, 0, 0)?;
    c.log(|| format!("{} commands, then {} at {:?}", base.cmds.len(), base.last, base.fin));
    c.cov.nontrivial = base.cmds.len() + (base.last != "end") as usize >= 2;
    for _ in 0..3 {
        let f = c.t.below(FEEDS.len());
        let mode = c.t.below(3);
        let mut switch = c.t.below(base.cmds.len() + 1);
        if mode == 2 && base.last == "end" {
            // a group must not be empty
            if base.cmds.is_empty() {
                continue;
            }
            switch = switch.min(base.cmds.len() - 1);
        }
        let how = format!("{}, {}", FEEDS[f], ["calls".into(), format!("iterator after {} calls", switch), format!("group after {} calls", switch)][mode]);
        c.cov.add(["driven by calls", "driven by iterator", "driven by group"][mode], 1);
        c.cov.note(hash_str(&how));
        let g = through(c, &text, f, mode, switch)?;
        c.log(|| format!("{}: {} commands, then {} at {:?}", how, g.cmds.len(), g.last, g.fin));
        ensure!(g.last == base.last, "changed-outcome", "{}: {}", how, crate::tree::diff(&base.last, &g.last));
        let lost = mode == 2 && base.last != "end";
        if lost {
            // a failing group gives no commands
            ensure!(g.cmds[..] == base.cmds[..g.cmds.len()], "changed-outcome", "{}: other commands before the switch", how);
        } else {
            for i in 0..base.cmds.len().max(g.cmds.len()) {
                let e = base.cmds.get(i).map_or("nothing", |s| s.as_str());
                let x = g.cmds.get(i).map_or("nothing", |s| s.as_str());
                ensure!(e == x, "changed-outcome", "{}: command {}: {}", how, i, crate::tree::diff(e, x));
            }
        }
        for (i, p) in g.pos.iter().enumerate() {
            if let Some(p) = p {
                ensure!(Some(*p) == base.pos[i], "changed-position", "{}: after command {}: {:?} instead of {:?}", how, i, p, base.pos[i]);
            }
        }
        if let Some(p) = g.fin {
            ensure!(Some(p) == base.fin, "changed-position", "{}: final position {:?} instead of {:?}", how, p, base.fin);
        }
        if g.tail.is_empty() || g.tail == cm(vec![]).exact() {
            // otherwise the comments at the end are returned instead
            ensure!(g.hash == base.hash, "changed-build", "{}: different builder calls", how);
        }
        c.cov.state(mix2(hash_str(&how), base.hash));
    }
    Ok(())
}
