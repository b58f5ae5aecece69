//! C14: the lexer.

use super::errs::any_text;
use super::Prop;
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::tape::{hash_str, mix2, Tape};
use crate::toks::soup;
use conch_parser::lexer::Lexer;
use conch_parser::token::Token;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

pub static C14: Prop = Prop {
    id: "C14",
    level: "exploration",
    run: c14,
    quick: 1_200_000,
    thorough: 30_000_000,
    rule: "a run is a delivered text of any kind (programs, cuts, corruption, soup of token spellings and odd characters), from a source that may come back to life after its end and gives exact, loose or no hints; the lexer is stepped with every read counted, cloned at random instants (before, between and after tokens, at the end) and all copies are stepped in random order; non-trivial: at least five tokens and one copy",
};

/// A source every copy of which goes on by itself.
#[derive(Clone)]
struct CSrc {
    chars: Arc<Vec<char>>,
    pos: usize,
    /// Where the first end of input is reported; what follows only shows if
    /// the source is polled again.
    end: usize,
    ended: bool,
    hint: u8,
    polls: Rc<Cell<u64>>,
    late: Rc<Cell<u64>>,
}
impl Iterator for CSrc {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.polls.set(self.polls.get() + 1);
        if self.ended {
            self.late.set(self.late.get() + 1);
        }
        if self.pos == self.end && !self.ended {
            self.ended = true;
            return None;
        }
        let c = self.chars.get(self.pos).copied();
        if c.is_some() {
            self.pos += 1;
        }
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = if self.ended { self.chars.len() - self.pos } else { self.end - self.pos };
        match self.hint {
            0 => (left, Some(left)),
            1 => (0, Some(left)),
            2 => (left / 2, Some(left + 3)),
            3 => (left, Some(usize::MAX)),
            _ => (0, None),
        }
    }
}

/// Odd characters between ordinary ones.
fn letters(t: &mut Tape) -> Vec<char> {
    const POOL: &[char] = &[
        'a', 'Z', '_', '1', '9', '0', '$', '\\', '<', '>', '|', '&', ';', '-', '\n', ' ', '\t', '\r', '\u{b}', '\u{a0}', '\u{2028}',
        '\u{e9}', '\u{4e2d}', '\u{1F600}', '\u{663}', '\u{0}', '.', '"', '\'', '`', '#', '(', ')', '{', '}', '[', ']', '!', '~', '*', '?',
        '%', '=', '+', ':', '@', '^', '/', ',', '\u{301}', '\u{130}',
    ];
    let n = 1 + t.draw(30) as usize;
    let few = t.chance(50);
    (0..n).map(|_| if few { POOL[t.below(20)] } else { *t.pick(POOL) }).collect()
}

struct Copy {
    l: Lexer<CSrc>,
    /// Tokens returned so far.
    at: usize,
    done: bool,
    ends: u32,
}

fn c14(c: &mut Ctx) -> Res {
    let text = match c.t.below(4) {
        0 => letters(&mut c.t),
        1 => soup(&mut c.t, 25).iter().flat_map(|t| t.as_str().chars().collect::<Vec<_>>()).collect(),
        2 => any_text(c),
        _ => {
            let cfg = Cfg::tiny(&mut c.t);
            gen::program(&mut c.t, cfg).text
        }
    };
    c.text("delivered", &text);
    let revive: Vec<char> = if c.t.chance(40) { letters(&mut c.t) } else { Vec::new() };
    let hint = c.t.draw(5) as u8;
    let mut all = text.clone();
    all.extend(&revive);
    let mk = |all: &Arc<Vec<char>>, end: usize| CSrc {
        chars: all.clone(),
        pos: 0,
        end,
        ended: false,
        hint,
        polls: Rc::default(),
        late: Rc::default(),
    };
    let all = Arc::new(all);
    // one uninterrupted pass with every read counted
    let s = mk(&all, text.len());
    let (polls, late) = (s.polls.clone(), s.late.clone());
    let mut l = Lexer::new(s);
    ensure!(polls.get() == 0, "reads-eagerly", "constructing the lexer read {} characters", polls.get());
    let mut toks: Vec<Token> = Vec::new();
    // characters read when each token had been returned
    let mut reads: Vec<usize> = Vec::new();
    let mut hints: Vec<(usize, Option<usize>)> = vec![l.size_hint()];
    // end offset of each token
    let mut ends: Vec<usize> = Vec::new();
    let mut off = 0;
    let nl: Vec<usize> = (0..text.len()).filter(|i| text[*i] == '\n').collect();
    loop {
        let p = polls.get();
        let r = match guarded(|| l.next()) {
            Ok(r) => r,
            Err(o) => return fail("panic", o.show()),
        };
        // the first newline not yet given back
        if let Some(q) = nl.iter().find(|q| **q >= off) {
            ensure!(
                polls.get() <= *q as u64 + 1,
                "reads-past-newline",
                "token {}: {} polls although the newline at {} had not been returned",
                toks.len(),
                polls.get(),
                q
            );
        }
        ensure!(polls.get() - p <= text.len() as u64 + 1, "reads-twice", "{} polls", polls.get());
        let t = match r {
            None => break,
            Some(t) => t,
        };
        let n = t.as_str().chars().count();
        ensure!(n > 0 && !t.is_empty(), "empty-token", "token {} ({:?}) is empty", toks.len(), t);
        ensure!(t.to_string() == t.as_str() && t.len() == t.as_str().len(), "token-text", "{:?}: text, display and length disagree", t);
        let got: Vec<char> = t.as_str().chars().collect();
        ensure!(
            off + n <= text.len() && got[..] == text[off..off + n],
            "not-lossless",
            "token {} ({:?}) stands where the text has {:?}",
            toks.len(),
            t,
            text[off.min(text.len())..(off + n).min(text.len())].iter().collect::<String>()
        );
        off += n;
        c.cov.state(hash_str(&format!("{:?}{:?}", t, toks.last())));
        toks.push(t);
        ends.push(off);
        reads.push(polls.get() as usize);
        hints.push(l.size_hint());
        ensure!(toks.len() <= text.len(), "no-progress", "{} tokens from {} characters", toks.len(), text.len());
    }
    ensure!(off == text.len(), "not-lossless", "the tokens end at offset {} of {}", off, text.len());
    ensure!(late.get() == 0, "polls-after-end", "the source was polled again after its end");
    for _ in 0..2 {
        ensure!(l.next().is_none(), "not-fused", "a token after the end");
    }
    ensure!(late.get() == 0, "polls-after-end", "the source was polled again after its end");
    ensure!(polls.get() == text.len() as u64 + 1, "reads-twice", "{} polls for {} characters", polls.get(), text.len());
    // at most the next token and one more character are read
    for i in 0..toks.len() {
        let lim = ends.get(i + 1).copied().unwrap_or(text.len()) + 1;
        ensure!(
            reads[i] <= lim,
            "reads-ahead",
            "after token {} ({:?}, ending at {}): {} characters had been read; the next token ends at {}",
            i,
            toks[i],
            ends[i],
            reads[i],
            lim - 1
        );
    }
    // the hint brackets what is still to come
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = toks.len() - i;
        ensure!(
            *lo <= left && hi.map_or(true, |h| h >= left),
            "wrong-hint",
            "after {} tokens: hint ({}, {:?}) but {} tokens followed",
            i,
            lo,
            hi,
            left
        );
    }
    c.cov.execs += 1;
    // what was returned does not depend on what follows
    let k = c.t.below(text.len() + 1);
    let mut other: Vec<char> = text[..k].to_vec();
    if c.t.chance(60) {
        other.extend(letters(&mut c.t));
    }
    let n = other.len();
    let got: Vec<Token> = Lexer::new(mk(&Arc::new(other), n)).take(toks.len() + 1).collect();
    c.cov.add("cut", 1);
    c.cov.execs += 1;
    for i in 0..toks.len() {
        if reads[i] > k {
            break;
        }
        ensure!(
            got.get(i) == Some(&toks[i]),
            "depends-on-future",
            "token {} ({:?}) had been returned after reading {} characters, but with other text from {} on it is {:?}",
            i,
            toks[i],
            reads[i],
            k,
            got.get(i)
        );
    }
    // copies
    let mut pool = vec![Copy { l: Lexer::new(mk(&all, text.len())), at: 0, done: false, ends: 0 }];
    let copies = 1 + c.t.draw(5) as usize;
    let mut left = copies;
    let mut steps = 0;
    let budget = (toks.len() + 3) * (copies + 1) + 20;
    while steps < budget && pool.iter().any(|x| x.ends < 2) {
        steps += 1;
        let j = c.t.below(pool.len());
        if left > 0 && c.t.chance(20) {
            let x = &pool[j];
            let y = Copy { l: x.l.clone(), at: x.at, done: x.done, ends: 0 };
            let (a, b) = (x.l.size_hint(), y.l.size_hint());
            ensure!(a == b, "wrong-hint", "a copy hints {:?}, its original {:?}", b, a);
            c.log(|| format!("copied after {} tokens", pool[j].at));
            c.cov.note(mix2(j as u64, pool[j].at as u64));
            pool.push(y);
            left -= 1;
            c.cov.add("snapshot", 1);
            continue;
        }
        let x = &mut pool[j];
        if c.t.chance(5) && x.at > 0 {
            // dropped half-way
            if pool.len() > 1 {
                pool.swap_remove(j);
                c.cov.add("dropped copy", 1);
            }
            continue;
        }
        let r = match guarded(|| x.l.next()) {
            Ok(r) => r,
            Err(o) => return fail("panic", o.show()),
        };
        let want = toks.get(x.at);
        ensure!(
            r.as_ref() == want,
            "copy-diverged",
            "copy {} of {} after {} tokens: {:?} instead of {:?}",
            j,
            pool.len(),
            pool[j].at,
            r,
            want
        );
        match r {
            Some(_) => x.at += 1,
            None => {
                x.done = true;
                x.ends += 1;
            }
        }
        let (lo, hi) = pool[j].l.size_hint();
        let rest = toks.len() - pool[j].at;
        ensure!(lo <= rest && hi.map_or(true, |h| h >= rest), "wrong-hint", "copy {}: hint ({}, {:?}) but {} tokens follow", j, lo, hi, rest);
    }
    c.cov.execs += copies as u64 + 1;
    c.cov.nontrivial = toks.len() >= 5;
    Ok(())
}
