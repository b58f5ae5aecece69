//! Neutral tree used to compare what was written, what the builder was told
//! and what the library's own ASTs contain.

use crate::tape::{hash_str, mix2};

#[derive(Clone, Debug)]
pub struct N {
    pub t: &'static str,
    pub s: String,
    pub k: Vec<N>,
    /// Identity of a here-document (generator side only; never compared).
    pub id: u32,
    /// Hash over the exact contents.
    pub h: u64,
}

impl N {
    pub fn new(t: &'static str, s: impl Into<String>, k: Vec<N>) -> N {
        let s = s.into();
        let mut h = mix2(hash_str(t), hash_str(&s));
        for x in &k {
            h = mix2(h, x.h);
        }
        h = mix2(h, k.len() as u64);
        N { t, s, k, id: 0, h }
    }
    pub fn leaf(t: &'static str, s: impl Into<String>) -> N {
        N::new(t, s, Vec::new())
    }
    pub fn exact(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, Mode::Exact);
        o
    }
    /// What was written: blank lines dropped from comment slots, adjacent
    /// literal fragments merged.
    pub fn canon(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, Mode::Canon);
        o
    }
    /// What the tree-building builders keep: no comments, only `&` separators.
    pub fn lossy(&self) -> String {
        let mut o = String::new();
        self.put(&mut o, Mode::Lossy);
        o
    }
    pub fn count(&self) -> usize {
        1 + self.k.iter().map(N::count).sum::<usize>()
    }
    /// Rewrites the word of here-document `id`.
    pub fn set_heredoc(&mut self, id: u32, w: &N) {
        if self.t == "r<<" && self.id == id {
            self.k = vec![w.clone()];
            return;
        }
        for x in &mut self.k {
            x.set_heredoc(id, w);
        }
    }

    fn put(&self, o: &mut String, m: Mode) {
        match self.t {
            "C" if m == Mode::Lossy => return,
            "C" => {
                o.push_str("C[");
                for x in &self.k {
                    if m == Mode::Exact || x.t != "nl" {
                        x.put(o, m);
                    }
                }
                o.push(']');
                return;
            }
            "w" | "D" if m != Mode::Exact => {
                o.push_str(self.t);
                o.push('[');
                put_pieces(&self.k, o, m);
                o.push(']');
                return;
            }
            _ => {}
        }
        let t = if m == Mode::Lossy && self.t == "bt" { "cs" } else { self.t };
        let s: &str = if self.t == "cc" && m == Mode::Lossy {
            if self.s == "&" {
                "&"
            } else {
                ";"
            }
        } else {
            &self.s
        };
        o.push('(');
        o.push_str(t);
        if !s.is_empty() || matches!(t, "L" | "S" | "E") {
            o.push_str(&format!(" {:?}", s));
        }
        for x in &self.k {
            if x.t == "C" && m == Mode::Lossy {
                continue;
            }
            o.push(' ');
            x.put(o, m);
        }
        o.push(')');
    }
}

fn put_pieces(k: &[N], o: &mut String, m: Mode) {
    let mut i = 0;
    while i < k.len() {
        match k[i].t {
            "L" | "S" if k[i].t == "L" || m == Mode::Lossy => {
                let mut buf = k[i].s.clone();
                let mut j = i + 1;
                while j < k.len() && k[j].t == k[i].t {
                    buf.push_str(&k[j].s);
                    j += 1;
                }
                if k[i].t == "S" || !buf.is_empty() {
                    o.push_str(&format!("({} {:?})", k[i].t, buf));
                }
                i = j;
            }
            "D" if m == Mode::Lossy => {
                let mut all = k[i].k.clone();
                let mut j = i + 1;
                while j < k.len() && k[j].t == "D" {
                    all.extend(k[j].k.iter().cloned());
                    j += 1;
                }
                o.push_str("D[");
                put_pieces(&all, o, m);
                o.push(']');
                i = j;
            }
            _ => {
                k[i].put(o, m);
                i += 1;
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    Exact,
    Canon,
    Lossy,
}

/// A short difference description: the region around the first mismatch.
pub fn diff(a: &str, b: &str) -> String {
    let ac: Vec<char> = a.chars().collect();
    let bc: Vec<char> = b.chars().collect();
    let mut i = 0;
    while i < ac.len() && i < bc.len() && ac[i] == bc[i] {
        i += 1;
    }
    let lo = i.saturating_sub(60);
    let cut = |v: &Vec<char>| v[lo.min(v.len())..(i + 80).min(v.len())].iter().collect::<String>();
    format!("expected ..{}.. got ..{}..", cut(&ac), cut(&bc))
}
