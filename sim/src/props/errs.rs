//! C04, C05, C08, C15: errors, positions, ends and robustness.

use super::Prop;
use crate::api::{self, call, Op, Ret};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg, OpenKind, Prog};
use crate::rec::{lock, Fault, Rec};
use crate::tape::{hash_str, mix2};
use crate::toks::*;
use crate::wire::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser};
use conch_parser::token::Token;
use std::sync::Arc;

fn small(c: &mut Ctx) -> Prog {
    let size = 1 + c.t.draw(c.size.min(3));
    let cfg = if c.t.chance(30) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
    gen::program(&mut c.t, cfg)
}

/// A delivered text of any kind: whole, cut, corrupted, spliced from pieces
/// of several programs, soup, or constructs with ill-fitting contents.
pub fn any_text(c: &mut Ctx) -> Vec<char> {
    match c.t.below(9) {
        6 => {
            c.cov.add("ill-fitting contents", 1);
            shapes(&mut c.t, 30)
        }
        7 | 8 => {
            c.cov.add("construct broken off", 1);
            edges(&mut c.t)
        }
        0 => {
            let v = soup(&mut c.t, 40);
            v.iter().flat_map(|t| t.as_str().chars().collect::<Vec<_>>()).collect()
        }
        1 => {
            let (a, b) = (small(c), small(c));
            let i = c.t.below(a.text.len() + 1);
            let j = c.t.below(b.text.len() + 1);
            c.cov.add("splice of two streams", 1);
            [&a.text[..i], &b.text[j..]].concat()
        }
        2 => small(c).text,
        _ => {
            let p = small(c);
            corrupt(&mut c.t, &p.text, &mut c.cov)
        }
    }
}

// ---------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04",
    level: "exploration",
    run: c04,
    quick: 900_000,
    thorough: 20_000_000,
    rule: "a run is a generated program that is cut at 4 random places, or gets a stray operator where a command begins, or is corrupted and driven by random public calls; every error (also repeated ones) is located in the delivered text, first errors of cuts and stray operators are compared with what the generator knows to be open or put there; non-trivial: at least one error was returned",
};

fn c04(c: &mut Ctx) -> Res {
    match c.t.below(7) {
        0 | 1 => c04_cut(c),
        2 | 3 => c04_stray(c),
        4 => super::parts::cut(c),
        _ => c04_any(c),
    }
}

fn c04_cut(c: &mut Ctx) -> Res {
    let p = small(c);
    c.program(&p);
    for _ in 0..4 {
        let k = c.t.below(p.text.len() + 1);
        let text = &p.text[..k];
        let tab = PosTab::new(text);
        let mut rig = Rig::new(Arc::new(text.to_vec()));
        c.cov.add("cut", 1);
        c.cov.execs += 1;
        let mut first = true;
        for _ in 0..k + 2 {
            match rig.next() {
                Out::Cmd(_) => {}
                Out::Err(e) => {
                    c.log(|| format!("cut at {}: {:?}", k, e));
                    c.cov.nontrivial = true;
                    c.cov.add(kind(&e), 1);
                    check_error(&e, &tab)?;
                    if first {
                        opener(&p, k, &tab, &e)?;
                    }
                    first = false;
                }
                Out::End => break,
                o => return fail("panic", o.show()),
            }
        }
    }
    Ok(())
}

pub fn kind(e: &ParseError<crate::rec::BErr>) -> &'static str {
    use ParseError::*;
    match e {
        BadFd(..) => "BadFd",
        BadIdent(..) => "BadIdent",
        BadSubst(..) => "BadSubst",
        Unmatched(..) => "Unmatched",
        IncompleteCmd(..) => "IncompleteCmd",
        Unexpected(..) => "Unexpected",
        UnexpectedEOF => "UnexpectedEOF",
        Custom(..) => "Custom",
    }
}

/// The first error of a cut program.
pub fn opener(p: &Prog, k: usize, tab: &PosTab, e: &ParseError<crate::rec::BErr>) -> Res {
    if p.vague(k) {
        return Ok(());
    }
    let open = p.open_at(k);
    let list = || open.iter().map(|o| format!("{:?}@{}", o.kind, o.at)).collect::<Vec<_>>().join(" ");
    match e {
        ParseError::Unmatched(t, pos) => {
            let at = tab.find(*pos).unwrap_or(usize::MAX);
            let ok = open.iter().any(|o| o.at == at && matches!(o.kind, OpenKind::Tok(s) if s.starts_with(t.as_str()) || t.as_str().starts_with(s)));
            ensure!(ok, "not-open", "cut at {}: {:?} (offset {}), but open are: {}", k, e, at, list());
        }
        ParseError::IncompleteCmd(w, pos, _, kpos) => {
            let at = tab.find(*pos).unwrap_or(usize::MAX);
            let ok = open.iter().any(|o| o.at == at && matches!(o.kind, OpenKind::Kw(s) if s == *w));
            ensure!(ok, "not-open", "cut at {}: {:?} (offset {}), but open are: {}", k, e, at, list());
            ensure!(tab.find(*kpos).map_or(false, |x| x >= at), "wrong-place", "cut at {}: {:?}", k, e);
        }
        _ => {}
    }
    Ok(())
}

fn c04_stray(c: &mut Ctx) -> Res {
    let p = small(c);
    if p.meta.starts.is_empty() {
        return Ok(());
    }
    let mut i = *c.t.pick(&p.meta.starts);
    while i > 0 && p.text[i - 1] == '\\' {
        // not between an escaped character and its backslash
        i -= 1;
    }
    let (s, tok) = [(" && ", Token::AndIf), (" || ", Token::OrIf), (" | ", Token::Pipe), (" & ", Token::Amp), (" ; ", Token::Semi)]
        [c.t.below(5)]
    .clone();
    let mut text = p.text.clone();
    text.splice(i..i, s.chars());
    c.text("delivered", &text);
    c.cov.add("stray operator", 1);
    let tab = PosTab::new(&text);
    let iter = c.t.chance(30);
    let h = run_either(Rig::new(Arc::new(text)), iter, &mut c.cov)?;
    c.cov.nontrivial = true;
    let done = p.tops.iter().take_while(|t| t.done <= i).count();
    check_expected(&p, &h, done)?;
    match h.last() {
        Out::Err(e) => {
            check_error(e, &tab)?;
            let ok = matches!(e, ParseError::Unexpected(t, pos) if *t == tok && tab.find(*pos) == Ok(i + 1));
            ensure!(ok, "stray-operator", "{:?} put at offset {}, but the error is {:?}", tok, i + 1, e);
        }
        o => return fail("stray-operator", format!("{:?} put at offset {} went unnoticed: {}", tok, i + 1, o.brief())),
    }
    Ok(())
}

fn c04_any(c: &mut Ctx) -> Res {
    let text = any_text(c);
    c.text("delivered", &text);
    let tab = PosTab::new(&text);
    let mut rig = Rig::new(Arc::new(text.clone()));
    c.cov.execs += 1;
    let mixed = c.t.chance(40);
    let calls = if mixed { 30 } else { text.len() + 2 };
    for _ in 0..calls {
        let op = if mixed { api::any_op(&mut c.t) } else { Op::Complete };
        let r = call(&mut rig.p, op, &rig.st);
        c.log(|| format!("{:?} -> {}", op, clip(&r.show(), 200)));
        c.cov.state(mix2(hash_str(&r.show()), rig.read() as u64));
        match r {
            Ret::Err(e) => {
                c.cov.nontrivial = true;
                c.cov.add(kind(&e), 1);
                check_error(&e, &tab)?;
            }
            Ret::Panic(s) => return fail("panic", s),
            Ret::Nothing if op == Op::Complete => break,
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05",
    level: "exploration",
    run: c05,
    quick: 900_000,
    thorough: 20_000_000,
    rule: "a run is a generated program read command by command (positions after each compared with the generator's offsets), or any delivered text under random public calls up to the first error; non-trivial: at least two positions were compared",
};

fn c05(c: &mut Ctx) -> Res {
    match c.t.below(6) {
        0 | 1 => return c05_any(c),
        2 => return super::parts::whole(c),
        _ => {}
    }
    let p = small(c);
    c.program(&p);
    let tab = PosTab::new(&p.text);
    let mut rig = Rig::new(Arc::new(p.text.clone()));
    let a = arrivals(&mut c.t, p.text.len());
    lock(&rig.w).arrivals = a;
    c.cov.execs += 1;
    let mut last = place(&rig, &tab, 0)?;
    ensure!(last == 0, "position", "a fresh parser stands at {}", last);
    for i in 0..=p.tops.len() {
        // looking does not move anything
        let o = rig.next();
        let at = place(&rig, &tab, last)?;
        last = at;
        c.cov.state(mix2(at as u64, hash_str(&o.brief())));
        match o {
            Out::Cmd(_) => {
                ensure!(i < p.tops.len(), "surplus-command", "{}", o.brief());
                let t = &p.tops[i];
                let next = p.tops.get(i + 1).map_or(p.text.len(), |n| n.start);
                ensure!(
                    at >= t.end && at <= next,
                    "position",
                    "after command {} ({}..{}) the position is offset {}, the next begins at {}",
                    i,
                    t.start,
                    t.end,
                    at,
                    next
                );
                if let Some(x) = not_blank(&p.text[at..next]) {
                    return fail(
                        "position",
                        format!("after command {} the position is offset {}, but at {} there is still {:?} of it", i, at, at + x, p.text[at + x]),
                    );
                }
            }
            Out::End => {
                ensure!(at == p.text.len(), "position", "end of input reported at offset {} of {}", at, p.text.len());
                ensure!(i == p.tops.len(), "missing-command", "end after {} commands", i);
                c.cov.nontrivial = i > 0;
                return Ok(());
            }
            o => return fail("spurious-error", o.show()),
        }
    }
    fail("surplus-command", "no end of input")
}

fn place(rig: &Rig, tab: &PosTab, last: usize) -> Result<usize, Fail> {
    let p = rig.p.pos();
    let at = match tab.find(p) {
        Ok(i) => i,
        Err(s) => return fail("inconsistent-position", s),
    };
    ensure!(at >= last, "moved-back", "position moved back from offset {} to {}", last, at);
    ensure!(at <= rig.read(), "ran-ahead", "position is offset {}, but only {} characters were delivered", at, rig.read());
    Ok(at)
}

/// First character that is not blank, a continuation or in a comment.
fn not_blank(t: &[char]) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            '\n' => i += 1,
            ch if ch.is_whitespace() => i += 1,
            '\\' if t.get(i + 1) == Some(&'\n') => i += 2,
            '#' => {
                while i < t.len() && t[i] != '\n' {
                    i += 1;
                }
            }
            _ => return Some(i),
        }
    }
    None
}

fn c05_any(c: &mut Ctx) -> Res {
    let text = if c.t.chance(50) { small(c).text } else { any_text(c) };
    c.text("delivered", &text);
    let tab = PosTab::new(&text);
    let mut rig = Rig::new(Arc::new(text.clone()));
    c.cov.execs += 1;
    let mut last = 0;
    for n in 0..40 {
        let op = if c.t.chance(60) { [Op::Word, Op::Redirect, Op::Linebreak, Op::Simple, Op::Complete][c.t.below(5)] } else { api::any_op(&mut c.t) };
        let r = call(&mut rig.p, op, &rig.st);
        c.log(|| format!("{:?} -> {} at {:?}", op, clip(&r.show(), 200), rig.p.pos()));
        if let Ret::Panic(s) = r {
            return fail("panic", s);
        }
        let at = place(&rig, &tab, last)?;
        last = at;
        c.cov.nontrivial |= n > 0;
        c.cov.state(mix2(at as u64, hash_str(&r.show())));
        match r {
            Ret::Err(_) => break,
            Ret::Nothing if op == Op::Complete => {
                ensure!(at == text.len(), "position", "end of input reported at offset {} of {}", at, text.len());
                break;
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    level: "exploration",
    run: c08,
    quick: 900_000,
    thorough: 20_000_000,
    rule: "a run is any delivered character or token stream that comes back to life after its end, driven past errors by calls, the iterator, random public calls or as a bare lexer, with builder failures; end reports, polls after the end and releases are checked after every call; non-trivial: an error or end was met before the last call",
};

fn revival(c: &mut Ctx) -> Vec<char> {
    c.cov.add("revival after end", 1);
    ["echo revived\n", "\n", ")", "\"", "E1\n", "&& x"][c.t.below(6)].chars().collect()
}

fn c08(c: &mut Ctx) -> Res {
    let text = any_text(c);
    c.text("delivered", &text);
    let revive = revival(c);
    match c.t.below(5) {
        0 => c08_lexer(c, text, revive),
        1 => c08_tokens(c, text, revive),
        2 => c08_iter(c, text, revive),
        _ => c08_calls(c, text, revive),
    }
}

fn c08_lexer(c: &mut Ctx, text: Vec<char>, revive: Vec<char>) -> Res {
    let n = text.len();
    let w = wire(Arc::new(text));
    lock(&w).revive = revive;
    let mut l = Lexer::new(Src(w.clone()));
    let mut out = 0;
    c.cov.execs += 1;
    loop {
        match l.next() {
            Some(_) => out += 1,
            None => break,
        }
        ensure!(out <= n, "surplus-token", "{} tokens from {} characters", out, n);
    }
    c.cov.nontrivial = true;
    for _ in 0..4 {
        ensure!(lock(&w).ended, "premature-end", "the lexer ended before its source");
        ensure!(lock(&w).after_end == 0, "polled-after-end", "the source was polled after its end");
        ensure!(l.next().is_none(), "revived", "the lexer went on after its end");
    }
    drop(l);
    ensure!(lock(&w).drops == 1, "release", "source dropped {} times", lock(&w).drops);
    Ok(())
}

fn c08_calls(c: &mut Ctx, text: Vec<char>, revive: Vec<char>) -> Res {
    let n = text.len();
    // backticks and here-document bodies are inputs of their own
    let nested = text.contains(&'`') || text.windows(2).any(|x| x == ['<', '<']);
    let mut rig = Rig::new(Arc::new(text));
    lock(&rig.w).revive = revive;
    if c.t.chance(20) {
        lock(&rig.st).fault = Some((c.t.draw(20) as u64, Fault::Err));
    }
    c.cov.execs += 1;
    let mixed = c.t.chance(40);
    let mut ends = 0;
    for _ in 0..(if mixed { 40 } else { n + 6 }) {
        let op = if mixed { api::any_op(&mut c.t) } else { Op::Complete };
        let r = call(&mut rig.p, op, &rig.st);
        c.log(|| format!("{:?} -> {}", op, clip(&r.show(), 200)));
        let (ended, after) = {
            let w = lock(&rig.w);
            (w.ended, w.after_end)
        };
        c.cov.state(mix2(hash_str(&r.show()), rig.read() as u64));
        ensure!(after == 0, "polled-after-end", "{:?} polled the source after its end", op);
        match r {
            Ret::Panic(s) => return fail("panic", s),
            Ret::Err(ParseError::UnexpectedEOF) => {
                c.cov.nontrivial = true;
                ensure!(ended || nested, "premature-end", "{:?} reported an unexpected end of input at offset {} of {}", op, rig.read(), n);
            }
            Ret::Err(_) => c.cov.nontrivial = true,
            Ret::Nothing if op == Op::Complete => {
                ensure!(ended, "premature-end", "end of input reported at offset {} of {}", rig.read(), n);
                ends += 1;
                if ends > 3 {
                    break;
                }
            }
            _ => {
                ensure!(
                    !(op == Op::Complete && ends > 0),
                    "not-final",
                    "after end of input was reported: {}",
                    clip(&r.show(), 200)
                );
            }
        }
    }
    Ok(())
}

fn c08_iter(c: &mut Ctx, text: Vec<char>, revive: Vec<char>) -> Res {
    let n = text.len();
    let Rig { w, st, p } = Rig::new(Arc::new(text));
    lock(&w).revive = revive;
    if c.t.chance(30) {
        lock(&st).fault = Some((c.t.draw(20) as u64, Fault::Err));
        c.cov.add("builder failure", 1);
    }
    c.cov.execs += 1;
    let mut it = p.into_iter();
    let mut m = 0;
    loop {
        let o = match guarded(|| it.next()) {
            Ok(Some(Ok(h))) => Out::Cmd(h.deliver()),
            Ok(Some(Err(e))) => Out::Err(e),
            Ok(None) => Out::End,
            Err(o) => o,
        };
        c.log(|| o.brief());
        m += 1;
        ensure!(m <= n + 2, "no-progress", "{} results from {} characters", m, n);
        match o {
            Out::Cmd(_) => {}
            Out::Err(_) | Out::End => {
                let end = matches!(o, Out::End);
                c.cov.nontrivial = true;
                if end {
                    ensure!(lock(&w).ended, "premature-end", "end of input reported at offset {} of {}", lock(&w).pos, n);
                }
                let (sd, bd) = (lock(&w).drops, lock(&st).builder_drops);
                ensure!(sd == 1 && bd == 1, "release", "after {}: source dropped {} times, builder {} times", o.brief(), sd, bd);
                break;
            }
            o => return fail("panic", o.show()),
        }
    }
    let (polls, calls) = (lock(&w).polls, lock(&st).calls);
    for _ in 0..3 {
        ensure!(matches!(guarded(|| it.next()), Ok(None)), "not-fused", "the iterator went on after an error or its end");
    }
    drop(it);
    ensure!(lock(&w).polls == polls && lock(&st).calls == calls, "touched-after-end", "source or builder used after the end");
    let (sd, bd) = (lock(&w).drops, lock(&st).builder_drops);
    ensure!(sd == 1 && bd == 1, "release", "source dropped {} times, builder {} times", sd, bd);
    ensure!(lock(&w).after_end == 0, "polled-after-end", "the source was polled after its end");
    Ok(())
}

fn c08_tokens(c: &mut Ctx, text: Vec<char>, revive: Vec<char>) -> Res {
    let toks: Vec<Token> = if c.t.chance(50) { soup(&mut c.t, 40) } else { Lexer::new(text.into_iter()).collect() };
    let n = toks.len();
    let nested = toks.iter().any(|t| matches!(t, Token::Backtick | Token::DLess | Token::DLessDash));
    let w = tok_wire(toks);
    lock(&w).revive = Lexer::new(revive.into_iter()).collect();
    lock(&w).hint = c.t.draw(6) as u8;
    let (b, st) = Rec::new();
    let mut p = Parser::with_builder(TokSrc(w.clone()), b);
    c.cov.execs += 1;
    let mixed = c.t.chance(40);
    let mut ends = 0;
    for _ in 0..(if mixed { 40 } else { n + 6 }) {
        let op = if mixed { api::any_op(&mut c.t) } else { Op::Complete };
        let r = call(&mut p, op, &st);
        c.log(|| format!("{:?} -> {}", op, clip(&r.show(), 200)));
        let s = lock(&w);
        ensure!(s.after_end == 0, "polled-after-end", "{:?} polled the token source after its end", op);
        match r {
            Ret::Panic(x) => return fail("panic", x),
            Ret::Err(e) => {
                c.cov.nontrivial = true;
                if let ParseError::UnexpectedEOF = e {
                    ensure!(s.ended || nested, "premature-end", "{:?} reported an unexpected end of input at token {} of {}", op, s.pos, n);
                }
            }
            Ret::Nothing if op == Op::Complete => {
                ensure!(s.ended, "premature-end", "end of input reported at token {} of {}", s.pos, n);
                ends += 1;
                if ends > 3 {
                    break;
                }
            }
            _ => ensure!(!(op == Op::Complete && ends > 0), "not-final", "after end of input was reported: {}", clip(&r.show(), 200)),
        }
    }
    drop(p);
    ensure!(lock(&w).drops == 1 && lock(&st).builder_drops == 1, "release", "source dropped {} times", lock(&w).drops);
    Ok(())
}

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    level: "exploration",
    run: c15,
    quick: 2_400_000,
    thorough: 25_000_000,
    rule: "a run is any delivered character stream or token soup under a random history of all public calls repeated after errors, then top-level calls until end of input; non-trivial: more than one call returned something other than a plain value",
};

fn c15(c: &mut Ctx) -> Res {
    c.cov.execs += 1;
    if c.t.chance(35) {
        let mut v = soup(&mut c.t, 60);
        if c.t.chance(15) {
            // tokens no lexer produces
            for _ in 0..1 + c.t.draw(4) {
                let i = c.t.below(v.len());
                v[i] = match c.t.below(6) {
                    0 => Token::Name(String::new()),
                    1 => Token::Literal(String::new()),
                    2 => Token::Whitespace(String::new()),
                    3 => Token::Literal("a\nb".into()),
                    4 => Token::Name("1 x".into()),
                    _ => Token::Whitespace("\n".into()),
                };
            }
            c.cov.add("odd tokens", 1);
        }
        let n = v.len();
        let s: String = v.iter().map(|t| t.as_str()).collect();
        c.text("tokens", &s.chars().collect::<Vec<_>>());
        c.cov.note(hash_str(&format!("{:?}", v)));
        let w = tok_wire(v);
        let (b, st) = Rec::new();
        let mut p = Parser::with_builder(TokSrc(w.clone()), b);
        c.cov.add("token soup", 1);
        history(c, &mut p, &st, n, &|| lock(&w).polls)
    } else {
        let text = any_text(c);
        c.text("delivered", &text);
        let mut rig = Rig::new(Arc::new(text.clone()));
        let w = rig.w.clone();
        history(c, &mut rig.p, &rig.st, text.len(), &|| lock(&w).polls)
    }
}

fn history<I: Iterator<Item = Token>>(
    c: &mut Ctx,
    p: &mut Parser<I, Rec>,
    st: &crate::rec::Shared,
    n: usize,
    polls: &dyn Fn() -> u64,
) -> Res {
    let mut odd = 0;
    let calls = if c.t.chance(60) { c.t.draw(40) } else { 0 };
    for _ in 0..calls {
        let op = api::any_op(&mut c.t);
        let r = call(p, op, st);
        c.log(|| format!("{:?} -> {}", op, clip(&r.show(), 200)));
        c.cov.state(mix2(hash_str(&r.show()), polls()));
        match r {
            Ret::Panic(s) => return fail("panic", format!("{:?}: {}", op, s)),
            Ret::Val(_) => {}
            _ => odd += 1,
        }
    }
    let mut m = 0;
    loop {
        let r = call(p, Op::Complete, st);
        c.log(|| format!("Complete -> {}", clip(&r.show(), 200)));
        c.cov.state(mix2(hash_str(&r.show()), polls()));
        match r {
            Ret::Panic(s) => return fail("panic", s),
            Ret::Nothing => break,
            Ret::Err(_) => odd += 1,
            _ => {}
        }
        m += 1;
        ensure!(m <= n, "no-progress", "{} results without end of input from {} source items", m, n);
    }
    c.cov.nontrivial = odd > 1;
    c.cov.add("calls", m as u64 + calls as u64);
    ensure!(polls() <= n as u64 + 1, "reread", "{} reads of {} source items", polls(), n);
    Ok(())
}
