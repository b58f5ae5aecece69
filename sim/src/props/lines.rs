//! C01, C02: who reads what from the stream, and when.

use super::Prop;
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg, Prog};
use crate::rec::{lock, Rec};
use crate::toks::*;
use crate::wire::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::{DefaultParser, Parser};
use conch_parser::token::Token;
use std::sync::Arc;

pub static C01: Prop = Prop {
    id: "C01",
    level: "exploration",
    run: c01,
    quick: 900_000,
    thorough: 15_000_000,
    rule: "a run is a generated program typed by a closed-loop client: batches of one to three lines (with their continuation lines and here-documents) are sent only after all commands of the previous batch came back, with random delays inside a batch, by calls or iterator; non-trivial: at least two exchanges or a multi-line unit",
};

fn c01(c: &mut Ctx) -> Res {
    let size = 1 + c.t.draw(c.size.min(3));
    let mut cfg = Cfg::draw(&mut c.t, size);
    cfg.units += c.t.draw(3);
    let p = gen::program(&mut c.t, cfg);
    c.program(&p);
    c.cov.nontrivial = p.units.len() > 1 || p.text.iter().filter(|x| **x == '\n').count() > 1;
    let w = wire(Arc::new(p.text.clone()));
    let a = arrivals(&mut c.t, p.text.len());
    {
        let mut s = lock(&w);
        s.arrivals = a;
        s.limit = 0;
    }
    let rig = Rig::on(w.clone());
    ensure!(lock(&w).polls == 0, "reads-eagerly", "building the parser read from the source");
    let by_iter = c.t.chance(50);
    let mut direct = None;
    let mut it = None;
    if by_iter {
        it = Some(rig.p.into_iter());
    } else {
        direct = Some(rig.p);
    }
    let mut next = || -> Result<Out, Fail> {
        let o = match (&mut direct, &mut it) {
            (Some(p), _) => step(p),
            (_, Some(i)) => match guarded(|| i.next()) {
                Ok(Some(Ok(h))) => Out::Cmd(h.deliver()),
                Ok(Some(Err(e))) => Out::Err(e),
                Ok(None) => Out::End,
                Err(o) => o,
            },
            _ => unreachable!(),
        };
        Ok(o)
    };
    c.cov.execs += 1;
    let mut u = 0;
    let mut given = 0;
    while u < p.units.len() {
        let e = (u + 1 + c.t.weighted(&[60, 25, 15])).min(p.units.len());
        let lim = p.units[e - 1];
        lock(&w).limit = lim;
        c.log(|| format!("client sends up to offset {}", lim));
        c.cov.add("exchange", 1);
        while given < p.tops.len() && p.tops[given].unit < e {
            let o = next()?;
            c.log(|| format!("  -> {}", o.brief()));
            let waits = lock(&w).waits.clone();
            ensure!(
                waits.is_empty(),
                "deadlock",
                "line group {} sent completely (up to offset {}), but before answering command {} the parser asked for more input",
                e - 1,
                waits[0],
                given
            );
            match o {
                Out::Cmd(n) => {
                    let (x, g) = (p.tops[given].n.canon(), n.canon());
                    ensure!(x == g, "altered-command", "command {}: {}", given, crate::tree::diff(&x, &g));
                    c.cov.state(n.h ^ lock(&w).pos as u64);
                }
                o => return fail("missing-command", format!("command {}: got {}", given, o.brief())),
            }
            given += 1;
        }
        u = e;
    }
    lock(&w).limit = p.text.len();
    while given < p.tops.len() {
        match next()? {
            Out::Cmd(_) => given += 1,
            o => return fail("missing-command", format!("command {}: got {}", given, o.brief())),
        }
    }
    let o = next()?;
    ensure!(matches!(o, Out::End), "surplus", "after the last command: {}", o.brief());
    let s = lock(&w);
    c.cov.sim_time += s.clock;
    c.cov.add("stall", s.stalls);
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    level: "exploration",
    run: c02,
    quick: 600_000,
    thorough: 10_000_000,
    rule: "a run is a generated program with blocks of foreign data between some of its lines; a parser (calls or iterator) works until a random line end, is dropped, another reader takes the foreign data from the same source, a fresh parser goes on; results are compared with one uninterrupted parse; non-trivial: at least one restart",
};

/// The program with foreign data after some units.
fn spliced(c: &mut Ctx, p: &Prog) -> (Vec<char>, Vec<(usize, usize)>) {
    let mut text = Vec::new();
    // per unit: offset of its end in the new text, length of the data after it
    let mut at = Vec::new();
    let mut from = 0;
    for (i, u) in p.units.iter().enumerate() {
        text.extend(&p.text[from..*u]);
        let end = text.len();
        let mut len = 0;
        if c.t.chance(25) {
            let d = match c.t.below(4) {
                0 => format!("\"raw {} data' `$( \n", i),
                1 => "\u{0}\u{1F600}<<<".to_string(),
                2 => "E1\nE2\n".to_string(),
                _ => "\\".to_string(),
            };
            len = d.chars().count();
            text.extend(d.chars());
            c.cov.add("foreign block", 1);
        }
        at.push((end, len));
        from = *u;
    }
    text.extend(&p.text[from..]);
    (text, at)
}

fn c02(c: &mut Ctx) -> Res {
    let size = 1 + c.t.draw(c.size.min(3));
    let mut cfg = Cfg::draw(&mut c.t, size);
    cfg.units += c.t.draw(3);
    let p = gen::program(&mut c.t, cfg);
    c.program(&p);
    let full = run_text(&p.text, &mut c.cov)?;
    let exact = full.exact();
    ensure!(full.ended() && exact.len() == p.tops.len(), "missing-command", "uninterrupted parse: {}", full.last().brief());
    let (text, at) = spliced(c, &p);
    let w = wire(Arc::new(text.clone()));
    let a = arrivals(&mut c.t, text.len());
    lock(&w).arrivals = a;
    lock(&w).hint = c.t.draw(6) as u8;
    let pct = *c.t.pick(&[30u32, 100, 10]);
    let mut given = 0;
    c.cov.execs += 1;
    let mut all_comments = Vec::new();
    loop {
        // a fresh parser on what is left of the stream
        let before = (lock(&w).polls, 0);
        let lexer = Lexer::new(Src(w.clone()));
        ensure!(lock(&w).polls == before.0, "reads-eagerly", "building a lexer read from the source");
        let (b, st) = Rec::new();
        let parser = Parser::with_builder(lexer, b);
        ensure!(lock(&w).polls == before.0, "reads-eagerly", "building a parser read from the source");
        let by_iter = c.t.chance(40);
        let (mut direct, mut it) = (None, None);
        if by_iter {
            it = Some(parser.into_iter());
            ensure!(lock(&w).polls == before.0, "reads-eagerly", "building an iterator read from the source");
        } else {
            direct = Some(parser);
        }
        let mut stopped = false;
        loop {
            let o = match (&mut direct, &mut it) {
                (Some(p), _) => step(p),
                (_, Some(i)) => match guarded(|| i.next()) {
                    Ok(Some(Ok(h))) => Out::Cmd(h.deliver()),
                    Ok(Some(Err(e))) => Out::Err(e),
                    Ok(None) => Out::End,
                    Err(o) => o,
                },
                _ => unreachable!(),
            };
            c.log(|| format!("{} (source at {})", o.brief(), lock(&w).pos));
            let n = match o {
                Out::Cmd(n) => n,
                Out::End => {
                    ensure!(given == exact.len(), "lost-command", "end of input after {} of {} commands", given, exact.len());
                    stopped = true;
                    break;
                }
                o => return fail("spurious-error", format!("after {} commands: {}", given, o.brief())),
            };
            ensure!(given < exact.len(), "repeated-command", "surplus {}", clip(&n.exact(), 300));
            let g = n.exact();
            ensure!(g == exact[given], "altered-command", "command {}: {}", given, crate::tree::diff(&exact[given], &g));
            let t = &p.tops[given];
            given += 1;
            let last_of_unit = t.unit < at.len() && (given == p.tops.len() || p.tops[given].unit != t.unit);
            if last_of_unit {
                let (end, data) = at[t.unit];
                let pos = lock(&w).pos;
                c.cov.state(n.h ^ pos as u64);
                ensure!(
                    pos == end,
                    "source-offset",
                    "after command {} the source stands at offset {} instead of {}",
                    given - 1,
                    pos,
                    end
                );
                if data > 0 || c.t.chance(pct) {
                    let polls = lock(&w).polls;
                    drop(direct.take());
                    drop(it.take());
                    let s = lock(&w);
                    ensure!(s.polls == polls, "reads-on-drop", "dropping the parser read from the source");
                    drop(s);
                    for _ in 0..data {
                        Src(w.clone()).next();
                    }
                    c.cov.add("restart", 1);
                    c.cov.nontrivial = true;
                    c.log(|| format!("restart; {} foreign characters read by someone else", data));
                    break;
                }
            }
        }
        all_comments.extend(comment_log(&st));
        if stopped {
            break;
        }
    }
    let want = comment_log(&full.st);
    ensure!(all_comments == want, "trailing-comments", "expected {:?} got {:?}", want, all_comments);
    c.cov.sim_time += lock(&w).clock;
    // dropping reads nothing, wherever the parser happens to be
    let mut rig = Rig::new(Arc::new(text));
    let calls = c.t.draw(3);
    for _ in 0..calls {
        if !matches!(rig.next(), Out::Cmd(_)) {
            break;
        }
    }
    let w = rig.w.clone();
    let polls = lock(&w).polls;
    if c.t.chance(50) {
        drop(rig.p.into_iter());
    } else {
        drop(rig);
    }
    ensure!(lock(&w).polls == polls, "reads-on-drop", "dropping the parser read from the source");
    untouched(c)
}

/// Building and dropping readers of a source of tokens or of characters,
/// whatever the source says about its length, reads nothing.
fn untouched(c: &mut Ctx) -> Res {
    let n = c.t.weighted(&[10, 40, 20, 20, 10]);
    let toks: Vec<Token> = (0..n).map(|_| any_token(&mut c.t)).collect();
    let hint = c.t.draw(6) as u8;
    let text: Vec<char> = toks.iter().flat_map(|t| t.as_str().chars().collect::<Vec<_>>()).collect();
    let w = wire(Arc::new(text));
    lock(&w).hint = hint;
    let tw = tok_wire(toks);
    lock(&tw).hint = hint;
    let how = c.t.below(6);
    c.log(|| format!("building (way {}) on {} tokens, size hint kind {}", how, n, hint));
    macro_rules! ways {
        ($p:expr) => {{
            let p = $p;
            match how % 3 {
                0 => drop(p),
                1 => {
                    let _ = p.pos();
                    drop(p.into_iter())
                }
                _ => {
                    let i = p.into_iter();
                    let _ = i.size_hint();
                    drop(i)
                }
            }
        }};
    }
    if how < 3 {
        if c.t.chance(50) {
            ways!(Parser::with_builder(TokSrc(tw.clone()), Rec::new().0))
        } else {
            ways!(DefaultParser::new(TokSrc(tw.clone())))
        }
        ensure!(lock(&tw).polls == 0, "reads-eagerly", "building and dropping a parser read from the source");
    } else {
        if c.t.chance(50) {
            ways!(Parser::with_builder(Lexer::new(Src(w.clone())), Rec::new().0))
        } else {
            ways!(DefaultParser::new(Lexer::new(Src(w.clone()))))
        }
        ensure!(lock(&w).polls == 0, "reads-eagerly", "building and dropping a parser read from the source");
    }
    Ok(())
}
