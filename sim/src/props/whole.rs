//! C12, C13, C03: what was written is what is delivered; here-documents;
//! cut streams.

use super::Prop;
use crate::common::*;
use crate::ensure;
use crate::gen::{self, Cfg, Prog};
use crate::rec::lock;
use crate::tree::N;
use std::sync::Arc;

pub static C12: Prop = Prop {
    id: "C12",
    level: "exploration",
    run: c12,
    quick: 1_200_000,
    thorough: 20_000_000,
    rule: "a run is a generated well-formed program (random subset of the shell's constructs), an arrival schedule, a driver (calls or iterator) and in a third of the runs a corrupted stream after some completed command; the delivered commands are compared with the generator's own tree; non-trivial: two or more commands, or a compound, quoted, expanded or redirected part",
};

pub fn weight(p: &Prog) -> bool {
    p.tops.len() > 1 || p.tops.iter().any(|t| t.n.count() > 12)
}

fn c12(c: &mut Ctx) -> Res {
    if c.t.chance(20) {
        return super::parts::whole(c);
    }
    let size = 1 + c.t.draw(c.size.min(3));
    let cfg = Cfg::draw(&mut c.t, size);
    let p = gen::program(&mut c.t, cfg);
    c.program(&p);
    c.cov.nontrivial = weight(&p);
    let mut text = p.text.clone();
    let mut upto = p.tops.len();
    let later = c.t.chance(33);
    if later {
        let i = c.t.below(p.tops.len());
        // up to where nothing that follows belongs to the command any more
        let k = match p.tops.get(i + 1) {
            _ if p.tops[i].nl => p.tops[i].done,
            Some(n) => n.start + 1 + usize::from(text[n.start] == '\\'),
            None => usize::MAX,
        };
        let k = p.tops[..=i].iter().map(|t| t.done).fold(k, usize::max);
        if k <= text.len() {
            let rest: Vec<char> = text.split_off(k);
            let bad = corrupt(&mut c.t, &rest, &mut c.cov);
            text.extend(bad);
            upto = i + 1;
            c.text("delivered", &text);
        }
    }
    let iter = c.t.chance(40);
    let rig = Rig::new(Arc::new(text.clone()));
    let a = arrivals(&mut c.t, text.len());
    lock(&rig.w).arrivals = a;
    let h = run_either(rig, iter, &mut c.cov)?;
    c.cov.add("stall", lock(&h.w).stalls);
    for o in &h.outs {
        c.log(|| o.brief());
    }
    check_expected(&p, &h, upto)?;
    if upto == p.tops.len() && text == p.text {
        ensure!(h.cmds().len() == p.tops.len(), "surplus-command", "delivered {}", h.outs[p.tops.len()].brief());
        ensure!(h.ended(), "spurious-error", "{}", h.last().show());
        let got = comment_log(&h.st);
        let want: Vec<String> = p.trailing.k.iter().filter(|x| x.t == "#").map(|x| x.s.clone()).collect();
        ensure!(got == want, "trailing-comments", "expected {:?} got {:?}", want, got);
    }
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    level: "exploration",
    run: c13,
    quick: 240_000,
    thorough: 6_000_000,
    rule: "a run is a generated program rich in here-documents (nested anywhere, several per line, stripped, quoted, CRLF), an arrival schedule, and cuts inside its bodies compared with a model of the truncated body; non-trivial: at least one here-document with a body",
};

/// What a here-document receives of a body cut at `k`.
fn truncated(p: &Prog, h: &gen::HdSpan, k: usize) -> N {
    let mut s = String::new();
    if k > h.body {
        let raw: Vec<char> = p.text[h.body..k].to_vec();
        let mut lines: Vec<&[char]> = raw.split(|c| *c == '\n').collect();
        let partial = lines.pop().unwrap_or(&[]);
        let strip = |l: &[char]| -> String {
            let n = if h.strip { l.iter().take_while(|c| **c == '\t').count() } else { 0 };
            l[n..].iter().collect()
        };
        for l in lines {
            s.push_str(&strip(l));
            s.push('\n');
        }
        let last = strip(partial);
        if last != h.delim && last != format!("{}\r", h.delim) {
            s.push_str(&last);
        }
    }
    N::new("w", "", if s.is_empty() { vec![] } else { vec![N::leaf("L", s)] })
}

fn c13(c: &mut Ctx) -> Res {
    let size = 1 + c.t.draw(c.size.min(3));
    let mut cfg = Cfg::draw(&mut c.t, size);
    cfg.heredoc = true;
    cfg.redirect = true;
    cfg.heavy_hd = true;
    let p = gen::program(&mut c.t, cfg);
    c.program(&p);
    c.cov.nontrivial = p.meta.hds.iter().any(|h| h.delim_at > h.body);
    c.cov.add("here-documents", p.meta.hds.len() as u64);
    let iter = c.t.chance(40);
    let rig = Rig::new(Arc::new(p.text.clone()));
    let a = arrivals(&mut c.t, p.text.len());
    lock(&rig.w).arrivals = a;
    let h = run_either(rig, iter, &mut c.cov)?;
    for o in &h.outs {
        c.log(|| o.brief());
    }
    check_expected(&p, &h, p.tops.len())?;
    ensure!(h.cmds().len() == p.tops.len(), "surplus-command", "delivered {}", h.outs[p.tops.len()].brief());
    ensure!(h.ended(), "spurious-error", "{}", h.last().show());
    // cuts inside bodies
    let spans: Vec<gen::HdSpan> = p.meta.hds.clone();
    if spans.is_empty() {
        return Ok(());
    }
    for _ in 0..6 {
        let s = spans[c.t.below(spans.len())].clone();
        let k = s.body + c.t.below(s.end - s.body);
        cut_body(c, &p, &spans, k)?;
    }
    Ok(())
}

fn cut_body(c: &mut Ctx, p: &Prog, spans: &[gen::HdSpan], k: usize) -> Res {
    if p.vague(k) || !p.open_at(k).is_empty() {
        return Ok(());
    }
    let mut want = Vec::new();
    for t in p.tops.iter().take_while(|t| t.start < k) {
        if t.end > k {
            return Ok(());
        }
        let mut n = t.n.clone();
        for h in spans {
            if k < h.end {
                if !h.plain && k > h.body {
                    return Ok(());
                }
                let w = truncated(p, h, k);
                n = set(&n, h.id, &w);
            }
        }
        want.push(n.canon());
    }
    c.cov.add("cut inside a body", 1);
    let mut rig = Rig::new(Arc::new(p.text[..k].to_vec()));
    let h = run(&mut rig, &mut c.cov)?;
    let got: Vec<String> = h.cmds().iter().map(|n| n.canon()).collect();
    for (i, w) in want.iter().enumerate() {
        ensure!(
            i < got.len(),
            "lost-at-cut",
            "cut at {}: command {} was not delivered but {}",
            k,
            i,
            h.last().brief()
        );
        ensure!(*w == got[i], "cut-body", "cut at {}: {}", k, crate::tree::diff(w, &got[i]));
    }
    ensure!(got.len() == want.len(), "surplus-command", "cut at {}: {}", k, h.outs[want.len()].brief());
    ensure!(h.ended(), "spurious-error", "cut at {}: {}", k, h.last().show());
    Ok(())
}

/// Replaces the word of here-document `id`, keeping the other ids.
fn set(n: &N, id: u32, w: &N) -> N {
    let mut r = n.clone();
    r.set_heredoc(id, w);
    r
}

pub static C03: Prop = Prop {
    id: "C03",
    level: "fault_enumeration",
    run: c03,
    quick: 48_000,
    thorough: 700_000,
    rule: "a run is a generated well-formed program with an arrival schedule, cut at every character position (at 60 random ones when longer than 220 characters); evaluations counts the cut parses; non-trivial: a construct is open at one of the cuts",
};

fn c03(c: &mut Ctx) -> Res {
    if c.t.chance(25) {
        return super::parts::cut(c);
    }
    let size = 1 + c.t.draw(c.size.min(3));
    let cfg = Cfg::draw(&mut c.t, size);
    let p = gen::program(&mut c.t, cfg);
    c.program(&p);
    let full = run_text(&p.text, &mut c.cov)?;
    let exact = full.exact();
    let n = p.text.len();
    let cuts: Vec<usize> = if n <= 220 { (0..n).collect() } else { (0..60).map(|_| c.t.below(n)).collect() };
    let slow = arrivals(&mut c.t, n);
    let iter = c.t.chance(30);
    for k in cuts {
        if p.vague(k) {
            continue;
        }
        let open = p.open_at(k);
        c.cov.add("cut", 1);
        if !open.is_empty() {
            c.cov.nontrivial = true;
            c.cov.add("cut with open construct", 1);
        }
        let mut rig = Rig::new(Arc::new(p.text[..k].to_vec()));
        lock(&rig.w).arrivals = slow.clone();
        let (h, mut rest) = if iter {
            (run_iter(rig, &mut c.cov)?, None)
        } else {
            let h = run(&mut rig, &mut c.cov)?;
            (h, Some(rig))
        };
        let got = h.exact();
        let m = p.tops.iter().take_while(|t| t.done <= k).count();
        for i in 0..m {
            ensure!(
                got.get(i) == exact.get(i),
                "changed-by-cut",
                "cut at {}: command {} is {:?}, without the cut {:?}",
                k,
                i,
                got.get(i).map(|s| clip(s, 300)),
                exact.get(i).map(|s| clip(s, 300))
            );
        }
        let started = p.tops.iter().take_while(|t| t.start < k).count();
        if let Some(o) = open.first() {
            ensure!(
                matches!(h.last(), Out::Err(_)),
                "unfinished-passed-off",
                "cut at {} leaves {:?} open (from {}), but the results end with {} after {} commands",
                k,
                o.kind,
                o.at,
                h.last().brief(),
                got.len()
            );
            ensure!(
                got.len() < started.max(m + 1),
                "unfinished-passed-off",
                "cut at {} leaves {:?} open (from {}), but {} commands were returned of {} begun",
                k,
                o.kind,
                o.at,
                got.len(),
                started
            );
        } else if p.tops.iter().all(|t| t.done <= k || t.start >= k) && (k == 0 || p.text[k - 1] != '\\') {
            ensure!(h.ended() && got.len() == m, "clean-cut", "cut at {} between commands: {}", k, h.last().show());
        }
        ensure!(got.len() <= started, "surplus-command", "cut at {}: {} commands from {} begun", k, got.len(), started);
        // parsing stops
        if let Some(rig) = &mut rest {
            let mut left = k + 2;
            while !matches!(rig.next(), Out::End) {
                ensure!(left > 0, "no-end", "cut at {}: no end of input after {} calls", k, k + 2);
                left -= 1;
            }
        }
    }
    Ok(())
}
