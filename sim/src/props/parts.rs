//! Histories of the methods for single constructs: a generated text that is
//! read word by word, redirect by redirect, construct by construct, and then
//! as a program.

use super::errs::{kind, opener};
use crate::api::{self, call, Op, Ret};
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg, Script};
use crate::rec::lock;
use crate::tape::{hash_str, mix2};
use std::sync::Arc;

pub fn draw(c: &mut Ctx) -> Script {
    let size = 1 + c.t.draw(c.size.min(2));
    let mut cfg = if c.t.chance(50) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
    cfg.depth = cfg.depth.max(2);
    let s = gen::script(&mut c.t, cfg);
    c.program(&s.p);
    c.log(|| s.steps.iter().map(|s| format!("{:?} {}..{}", s.op, s.start, s.end)).collect::<Vec<_>>().join(", "));
    c.cov.add("single-construct calls", s.steps.len() as u64);
    s
}

/// A history of calls that fits its text, more or less.
pub fn history(c: &mut Ctx) -> (Vec<char>, Vec<Op>) {
    let s = draw(c);
    let mut ops: Vec<Op> = s.steps.iter().map(|s| s.op).collect();
    for _ in 0..=s.p.tops.len() {
        ops.push(Op::Complete);
    }
    let mut text = s.p.text;
    match c.t.weighted(&[60, 15, 15, 10]) {
        1 => {
            let k = c.t.below(text.len() + 1);
            text.truncate(k);
            c.cov.add("cut", 1);
        }
        2 => text = corrupt(&mut c.t, &text, &mut c.cov),
        3 => {
            let i = c.t.below(ops.len());
            ops[i] = api::any_op(&mut c.t);
        }
        _ => {}
    }
    (text, ops)
}

/// Blanks and continuations from `i` on.
fn over_blanks(t: &[char], mut i: usize) -> usize {
    while i < t.len() {
        match t[i] {
            '\n' => break,
            x if x.is_whitespace() => i += 1,
            '\\' if t.get(i + 1) == Some(&'\n') => i += 2,
            _ => break,
        }
    }
    i
}

/// The whole text: results, positions and how far was read.
pub fn whole(c: &mut Ctx) -> Res {
    let s = draw(c);
    let text = &s.p.text;
    let tab = PosTab::new(text);
    let mut rig = Rig::new(Arc::new(text.clone()));
    let a = arrivals(&mut c.t, text.len());
    lock(&rig.w).arrivals = a;
    c.cov.execs += 1;
    c.cov.nontrivial = s.steps.len() > 2;
    for (i, st) in s.steps.iter().enumerate() {
        let r = call(&mut rig.p, st.op, &rig.st);
        let pos = rig.p.pos();
        c.log(|| format!("{:?} -> {} at {:?}", st.op, clip(&r.show(), 300), pos));
        c.cov.state(mix2(hash_str(&r.show()), rig.read() as u64));
        let got = match &r {
            Ret::Val(n) => Some(n.canon()),
            Ret::Nothing => None,
            Ret::Err(e) => return fail("spurious-error", format!("call {} ({:?} at offset {}): {:?}", i, st.op, st.start, e)),
            r => return fail("panic", r.show()),
        };
        let want = st.want.as_ref().map(|n| n.canon());
        if want != got {
            let (w, g) = (want.unwrap_or_else(|| "nothing".into()), got.unwrap_or_else(|| "nothing".into()));
            return fail("altered-construct", format!("call {} ({:?} at offset {}): {}", i, st.op, st.start, crate::tree::diff(&w, &g)));
        }
        let at = match tab.find(pos) {
            Ok(x) => x,
            Err(e) => return fail("inconsistent-position", format!("after call {} ({:?}): {}", i, st.op, e)),
        };
        let most = if st.op == Op::WordWs { st.end } else { over_blanks(text, st.end) };
        ensure!(
            at >= st.end && at <= most,
            "position",
            "after call {} ({:?}) the position is offset {}, but the construct is {}..{} and the next begins at {}",
            i,
            st.op,
            at,
            st.start,
            st.end,
            most
        );
        ensure!(at <= rig.read(), "ran-ahead", "position is offset {}, but only {} characters were delivered", at, rig.read());
        ensure!(
            st.done == usize::MAX || rig.read() <= st.done,
            "reads-on",
            "call {} ({:?}) read {} characters where its line ends at {}",
            i,
            st.op,
            rig.read(),
            st.done
        );
    }
    if s.stop {
        return Ok(());
    }
    let h = run(&mut rig, &mut c.cov)?;
    for o in &h.outs {
        c.log(|| o.brief());
    }
    check_expected(&s.p, &h, s.p.tops.len())?;
    ensure!(h.cmds().len() == s.p.tops.len(), "surplus-command", "delivered {}", h.outs[s.p.tops.len()].brief());
    ensure!(h.ended(), "spurious-error", "{}", h.last().show());
    Ok(())
}

/// The text cut: what was complete stays, what is open is an error that
/// names the true place.
pub fn cut(c: &mut Ctx) -> Res {
    let s = draw(c);
    let text = &s.p.text;
    let first_top = s.p.tops.first().map_or(text.len(), |t| t.start);
    let mut full = Vec::new();
    {
        let mut rig = Rig::new(Arc::new(text.clone()));
        for st in &s.steps {
            full.push(call(&mut rig.p, st.op, &rig.st).show());
        }
    }
    let cuts: Vec<usize> = if first_top <= 60 { (0..first_top).collect() } else { (0..30).map(|_| c.t.below(first_top)).collect() };
    for k in cuts {
        if s.p.vague(k) {
            continue;
        }
        let part = &text[..k];
        let tab = PosTab::new(part);
        let open = s.p.open_at(k);
        c.cov.add("cut", 1);
        c.cov.nontrivial |= !open.is_empty();
        c.cov.execs += 1;
        let mut rig = Rig::new(Arc::new(part.to_vec()));
        let mut bad = None;
        for (i, st) in s.steps.iter().enumerate() {
            if st.start >= k {
                break;
            }
            let r = call(&mut rig.p, st.op, &rig.st);
            c.log(|| format!("cut at {}: {:?} -> {}", k, st.op, clip(&r.show(), 300)));
            if st.done <= k {
                ensure!(r.show() == full[i], "changed-by-cut", "cut at {}: call {} ({:?}) returned {}, without the cut {}", k, i, st.op, r.show(), full[i]);
            }
            match r {
                Ret::Err(e) => {
                    check_error(&e, &tab)?;
                    opener(&s.p, k, &tab, &e)?;
                    c.cov.add(kind(&e), 1);
                    bad = Some(e);
                    break;
                }
                Ret::Panic(s) => return fail("panic", s),
                _ => {}
            }
        }
        c.cov.state(mix2(hash_str(&format!("{:?}", bad)), k as u64));
        if let Some(o) = open.first() {
            ensure!(bad.is_some(), "unfinished-passed-off", "cut at {} leaves {:?} open (from {}), but no call returned an error", k, o.kind, o.at);
        }
    }
    Ok(())
}
