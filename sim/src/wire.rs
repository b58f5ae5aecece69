//! The simulated character wire: arrival times, line-by-line release,
//! end of input, revival, read failures.

use crate::rec::{lock, Hook, SimPanic};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct WireSt {
    pub chars: Arc<Vec<char>>,
    pub pos: usize,
    pub polls: u64,
    pub ended: bool,
    pub after_end: u64,
    /// Characters the peer has sent so far; polling beyond it means waiting
    /// for a peer that itself waits for us.
    pub limit: usize,
    pub waits: Vec<usize>,
    pub panic_at: Option<u64>,
    /// Characters that would come after an end of input.
    pub revive: Vec<char>,
    pub revived: usize,
    pub hint: u8,
    pub drops: u32,
    pub hook: Option<Hook>,
    /// Virtual clock and arrival time per character (empty: all at once).
    pub clock: u64,
    pub arrivals: Vec<u64>,
    pub stalls: u64,
}
pub type WireRef = Arc<Mutex<WireSt>>;

pub fn wire(chars: Arc<Vec<char>>) -> WireRef {
    let n = chars.len();
    Arc::new(Mutex::new(WireSt { chars, limit: n, ..Default::default() }))
}

/// The end of the wire the lexer reads. Not clonable.
pub struct Src(pub WireRef);

impl Drop for Src {
    fn drop(&mut self) {
        lock(&self.0).drops += 1;
    }
}

impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let hook = lock(&self.0).hook.clone();
        if let Some(h) = hook {
            h("read");
        }
        let mut w = lock(&self.0);
        let k = w.polls;
        w.polls += 1;
        if w.panic_at == Some(k) {
            drop(w);
            std::panic::panic_any(SimPanic(format!("read {}", k)));
        }
        if w.ended {
            w.after_end += 1;
            if w.revived < w.revive.len() {
                w.revived += 1;
                return Some(w.revive[w.revived - 1]);
            }
            return None;
        }
        if w.pos >= w.limit && w.pos < w.chars.len() {
            // nothing there yet: note it, then let the peer send the rest
            let p = w.pos;
            w.waits.push(p);
            w.limit = w.chars.len();
        }
        if w.pos < w.chars.len() {
            let p = w.pos;
            w.pos += 1;
            if let Some(t) = w.arrivals.get(p).copied() {
                if t > w.clock {
                    w.clock = t;
                    w.stalls += 1;
                }
            }
            w.clock += 1;
            Some(w.chars[p])
        } else {
            w.ended = true;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let w = lock(&self.0);
        let left = w.chars.len() - w.pos;
        let (lo, hi) = match w.hint {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (0, Some(left + 7)),
            3 => (left / 2, None),
            4 => (0, Some(usize::MAX)),
            _ => (0, Some(left)),
        };
        if w.ended {
            (0, hi.map(|_| w.revive.len() - w.revived))
        } else {
            (lo, hi.map(|h| h.saturating_add(w.revive.len())))
        }
    }
}
