//! A simulated stream of tokens, not fused, with faults; and token soup.

use crate::rec::{lock, SimPanic};
use crate::tape::Tape;
use conch_parser::token::{Positional, Token};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct TokSt {
    pub toks: Vec<Token>,
    pub pos: usize,
    pub polls: u64,
    pub ended: bool,
    pub after_end: u64,
    pub revive: Vec<Token>,
    pub revived: usize,
    pub panic_at: Option<u64>,
    pub hint: u8,
    pub drops: u32,
}
pub type TokRef = Arc<Mutex<TokSt>>;

pub struct TokSrc(pub TokRef);

pub fn tok_wire(toks: Vec<Token>) -> TokRef {
    Arc::new(Mutex::new(TokSt { toks, ..Default::default() }))
}

impl Drop for TokSrc {
    fn drop(&mut self) {
        lock(&self.0).drops += 1;
    }
}

impl Iterator for TokSrc {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        let mut w = lock(&self.0);
        let k = w.polls;
        w.polls += 1;
        if w.panic_at == Some(k) {
            drop(w);
            std::panic::panic_any(SimPanic(format!("token read {}", k)));
        }
        if w.ended {
            w.after_end += 1;
            if w.revived < w.revive.len() {
                w.revived += 1;
                return Some(w.revive[w.revived - 1].clone());
            }
            return None;
        }
        if w.pos < w.toks.len() {
            w.pos += 1;
            Some(w.toks[w.pos - 1].clone())
        } else {
            w.ended = true;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let w = lock(&self.0);
        let left = w.toks.len() - w.pos;
        match w.hint % 5 {
            0 => (0, None),
            1 => (left, Some(left + w.revive.len())),
            2 => (left / 2, None),
            3 => (left, Some(usize::MAX)),
            _ => (0, Some(left + 9 + w.revive.len())),
        }
    }
}

/// One arbitrary token.
pub fn any_token(t: &mut Tape) -> Token {
    use Token::*;
    const S: &[fn() -> Token] = &[
        || Newline,
        || ParenOpen,
        || ParenClose,
        || CurlyOpen,
        || CurlyClose,
        || SquareOpen,
        || SquareClose,
        || Bang,
        || Tilde,
        || Pound,
        || Star,
        || Question,
        || Backslash,
        || Percent,
        || Dash,
        || Equals,
        || Plus,
        || Colon,
        || At,
        || Caret,
        || Slash,
        || Comma,
        || Pipe,
        || OrIf,
        || Dollar,
        || Backtick,
        || SingleQuote,
        || DoubleQuote,
        || Amp,
        || AndIf,
        || Semi,
        || DSemi,
        || Less,
        || LessAnd,
        || LessGreat,
        || DLess,
        || DLessDash,
        || Great,
        || GreatAnd,
        || DGreat,
        || Clobber,
    ];
    const N: &[&str] = &[
        "if", "then", "else", "elif", "fi", "while", "until", "do", "done", "for", "case", "esac", "in", "function", "a", "foo", "E1",
        "x", "\u{e9}t\u{e9}",
    ];
    const L: &[&str] = &["1", "0", "65535", "65536", "12", "a.b", "99999999999999999999", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "0x1F", "0x", "0xFFFFFFFFFFFFFFFFF",
        "0x\u{e9}", "08", "1\u{e9}", "\u{e9}", ".", "\u{1F600}", "\r", "E1\r",
        "\u{0}", "\u{4}", "\u{1a}", "\u{1b}", "\u{7f}", "\u{feff}", "\u{feff}x", "\u{200b}", "\u{fffd}", "\u{661}", "\u{10ffff}", "\u{2019}"];
    match t.draw(12) {
        0 | 1 => Whitespace([" ", "\t", "  ", "\t\t", " \t"][t.below(5)].into()),
        2 | 3 => Name(t.pick(N).to_string()),
        4 => Literal(t.pick(L).to_string()),
        5 => ParamPositional(Positional::from_num(t.draw(10) as u8).unwrap()),
        6 => Newline,
        _ => {
            let i = t.below(S.len());
            S[i]()
        }
    }
}

pub fn soup(t: &mut Tape, max: u32) -> Vec<Token> {
    let n = 1 + t.draw(max);
    (0..n).map(|_| any_token(t)).collect()
}

/// The beginning of a construct, a few arbitrary tokens, and little or nothing
/// behind: what each place in the grammar makes of each thing met there.
pub fn edges(t: &mut Tape) -> Vec<char> {
    const HEADS: &[&str] = &[
        "", "%", "%=", "%=%", "% %", "! ", "! %", "% | ", "% && ", "% &", "%;", "%\n", "# %", "(", "( %", "(%)", "{ ", "{ %", "{ %; ", "{ %; }", "if ",
        "if %", "if %; ", "if %; then ", "if %; then %", "if %; then %; ", "if %; then %; else ", "if %; then %; elif %; ",
        "if %; then %; elif %; then %\n", "if %\nthen %\nfi", "while ", "while %; ", "until %\ndo ", "while %; do %; ", "until %; do %; done", "for ", "for %", "for % ",
        "for % in", "for % in %", "for % in %; ", "for %; ", "for %\n", "for % do %; ", "for % in %\ndo %\ndone", "case ", "case %", "case % in", "case % in ", "case % in (", "case % in %",
        "case % in %|", "case % in %)", "case % in %) %", "case % in %) %;;", "case % in %) %;;\n", "case % in %) %;; esac", "%(", "%()", "%() ", "%() {", "%() (%)", "function ", "function %",
        "function % ", "function %(", "function %()", "function % (", "function % (%)", "function %\n", ">", "% >", "% >%", "%>", "2>", "2>&", "% <&", "<<", "<<-", "% <<%", "% <<%\n", "% <<%\n%",
        "% <<-%\n\t%\n", "% <<'%", "% <<'%'\n", "% <<\"", "% <<\\", "% <<`", "$", "\"$", "${", "${%", "${#", "${#%", "${%:", "${%:-", "${%:-%", "${%#", "${%##%", "${%%", "${1", "${@", "${#%}",
        "$(", "$(%", "$(%)", "$((", "$((%", "$((% + ", "$((%)", "$((%))", "$(( (%", "$((% ? ", "$((% ? % : ", "$((% = ", "$((+", "$((++", "$((%++", "`", "`%", "`%`", "\"", "\"%", "\"%\"", "\"`", "\"`\\", "'", "'%", "'%'",
        "\\", "%\\", "`\\", "`\\`", "`\\`%\\`", "~", "[", "%*",
    ];
    const TAILS: &[&str] = &["", "", "", "\n", " %", "; %\n", " }", ")", "}", "\"", "`", "'", "\n%\n", " done", "; fi", "\nesac", "; done\n"];
    const NAMES: &[&str] = &["a", "x1", "foo", "E1", "\u{e9}", "_", "1", "65536", "a.b", "if", "in", "do", "$x", "a_name_of_some_length", "12345678901234567890", "-"];
    let mut s = String::new();
    let mut put = |t: &mut Tape, f: &str| {
        for ch in f.chars() {
            if ch == '%' {
                s.push_str(NAMES[t.weighted(&[20, 5, 5, 3, 3, 1, 4, 1, 2, 1, 1, 1, 3, 3, 1, 1])]);
            } else {
                s.push(ch);
            }
        }
    };
    let head = *t.pick(HEADS);
    put(t, head);
    for _ in 0..t.weighted(&[10, 45, 35, 10]) {
        let tok = any_token(t);
        put(t, tok.as_str());
    }
    let tail = *t.pick(TAILS);
    put(t, tail);
    s.chars().collect()
}

/// Text of nested constructs whose contents are arbitrary: each opened
/// construct is (nearly always) closed, what is in it rarely fits.
pub fn shapes(t: &mut Tape, max: u32) -> Vec<char> {
    let mut s = String::new();
    let mut fuel = 4 + t.draw(max) as i32;
    fill(t, &mut s, 0, &mut fuel);
    s.chars().collect()
}

fn fill(t: &mut Tape, s: &mut String, depth: u32, fuel: &mut i32) {
    // text, `%` being filled in
    const SHAPES: &[&str] = &[
        "${%}",
        "${%:-%}",
        "${#%}",
        "${%##%}",
        "$((%))",
        "$(( % ))",
        "$((% + %))",
        "$(%)",
        "`%`",
        "\"%\"",
        "'%'",
        "(%)",
        "{ %; }",
        "% | %",
        "% && %",
        "! %",
        "%; %",
        "%\n%",
        "# %\n%",
        "v=%",
        " >%",
        " 2>&%",
        " <<E1\n%\nE1\n",
        " <<-'E1' %\n\t%\n\tE1\n",
        " <<% a\n%\n",
        "if %; then %; fi",
        "if %\nthen %\nelif %; then %; else %; fi",
        "while %; do %; done",
        "for %",
        "for x in %; do %; done",
        "for x %\ndo %\ndone",
        "case % in %) %;; esac",
        "case % in (%|%)\n%;;\n%)% esac",
        "f%() { %; }",
        "function % { %; }",
        "f() %",
        "do % done",
        "then %",
    ];
    let n = t.weighted(&[12, 48, 25, 15]);
    for i in 0..n {
        *fuel -= 1;
        if i > 0 && t.chance(50) {
            s.push(' ');
        }
        if depth < 5 && *fuel > 0 && t.chance(60) {
            let shape = *t.pick(SHAPES);
            let end = if t.chance(5) { t.below(shape.len()) } else { shape.len() };
            for ch in shape[..end].chars() {
                if ch == '%' {
                    fill(t, s, depth + 1, fuel);
                } else {
                    s.push(ch);
                }
            }
        } else if t.chance(60) {
            s.push_str(["a", "x1", "foo", "1", "\u{e9}\u{65e5}", "-", "$x", "\\"][t.weighted(&[5, 5, 5, 5, 3, 2, 3, 1])]);
        } else {
            s.push_str(any_token(t).as_str());
        }
    }
}
