//! Workload generator: writes a shell program together with what it means
//! (the tree the builder must be told), where its commands end, and which
//! constructs are open at which character offset.

use crate::api::Op;
use crate::tape::Tape;
use crate::tree::N;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpenKind {
    /// An opening delimiter; `Unmatched` may name it.
    Tok(&'static str),
    /// A compound keyword; `IncompleteCmd` may name it.
    Kw(&'static str),
    /// An operator that still lacks its operand.
    Dangling,
}

/// The construct is open for every cut offset `from <= k < to`.
#[derive(Clone, Debug)]
pub struct Open {
    pub from: usize,
    pub to: usize,
    pub at: usize,
    pub kind: OpenKind,
}

#[derive(Clone, Debug)]
pub struct HdSpan {
    pub id: u32,
    /// First character of the body, first character of the delimiter line,
    /// first character after it.
    pub body: usize,
    pub delim_at: usize,
    pub end: usize,
    pub strip: bool,
    pub delim: String,
    /// Body without any expansion.
    pub plain: bool,
    pub quoted: bool,
}

#[derive(Clone, Debug)]
pub struct Top {
    pub start: usize,
    /// After the command's own last character.
    pub end: usize,
    /// After its separator (newline and here-documents included).
    pub sep_end: usize,
    /// From this many delivered characters on the command can no longer
    /// change.
    pub done: usize,
    pub unit: usize,
    /// Ended by a newline (possibly after `;`, `&` or a comment).
    pub nl: bool,
    pub n: N,
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub opens: Vec<Open>,
    pub starts: Vec<usize>,
    pub hds: Vec<HdSpan>,
    /// A program cut here ends in what would be a reserved word.
    pub vague: Vec<usize>,
}

impl Meta {
    fn remap(mut self, f: &dyn Fn(usize) -> usize) -> Meta {
        for o in &mut self.opens {
            o.from = f(o.from);
            o.to = f(o.to);
            o.at = f(o.at);
        }
        for s in self.starts.iter_mut().chain(&mut self.vague) {
            *s = f(*s);
        }
        for h in &mut self.hds {
            h.body = f(h.body);
            h.delim_at = f(h.delim_at);
            h.end = f(h.end);
        }
        self
    }
    fn extend(&mut self, o: Meta) {
        self.opens.extend(o.opens);
        self.starts.extend(o.starts);
        self.hds.extend(o.hds);
        self.vague.extend(o.vague);
    }
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub text: Vec<char>,
    pub tops: Vec<Top>,
    /// Offsets after each newline-terminated line group.
    pub units: Vec<usize>,
    pub meta: Meta,
    /// Comments after the last command, given to `Builder::comments`.
    pub trailing: N,
    pub stretched: Option<(Dim, usize)>,
}

impl Prog {
    /// Nothing can be said of what is open at `k`.
    pub fn vague(&self, k: usize) -> bool {
        self.meta.vague.contains(&k)
    }
    pub fn open_at(&self, k: usize) -> Vec<&Open> {
        self.meta.opens.iter().filter(|o| o.from <= k && k < o.to).collect()
    }
}

/// Which one dimension of a stretched run is made large.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dim {
    Args,
    ForWords,
    Pipe,
    AndOr,
    Group,
    Tops,
    Arms,
    Pats,
    Elifs,
    HdLines,
    Hds,
    Breaks,
    Pieces,
    DqPieces,
    SubstPieces,
    Io,
    Vars,
    NestCmd,
    NestWord,
    ArithChain,
    Blank,
    Bare,
    Comment,
    Single,
    Quoted,
    RawLine,
    Name,
}
const DIMS: &[Dim] = &[
    Dim::Args,
    Dim::ForWords,
    Dim::Pipe,
    Dim::AndOr,
    Dim::Group,
    Dim::Tops,
    Dim::Arms,
    Dim::Pats,
    Dim::Elifs,
    Dim::HdLines,
    Dim::Hds,
    Dim::Breaks,
    Dim::Pieces,
    Dim::DqPieces,
    Dim::SubstPieces,
    Dim::Io,
    Dim::Vars,
    Dim::NestCmd,
    Dim::NestWord,
    Dim::ArithChain,
    Dim::Blank,
    Dim::Bare,
    Dim::Comment,
    Dim::Single,
    Dim::Quoted,
    Dim::RawLine,
    Dim::Name,
];

impl Dim {
    pub fn label(self) -> &'static str {
        match self {
            Dim::Args => "stretched: arguments",
            Dim::ForWords => "stretched: for words",
            Dim::Pipe => "stretched: pipeline",
            Dim::AndOr => "stretched: and-or list",
            Dim::Group => "stretched: group",
            Dim::Tops => "stretched: commands per line",
            Dim::Arms => "stretched: case arms",
            Dim::Pats => "stretched: case patterns",
            Dim::Elifs => "stretched: elif arms",
            Dim::HdLines => "stretched: here-document lines",
            Dim::Hds => "stretched: pending here-documents",
            Dim::Breaks => "stretched: blank and comment lines",
            Dim::Pieces => "stretched: word pieces",
            Dim::DqPieces => "stretched: double-quoted pieces",
            Dim::SubstPieces => "stretched: substitution word pieces",
            Dim::Io => "stretched: redirects of a compound",
            Dim::Vars => "stretched: assignments",
            Dim::NestCmd => "stretched: nested commands",
            Dim::NestWord => "stretched: nested words",
            Dim::ArithChain => "stretched: arithmetic",
            Dim::Blank => "stretched: blanks",
            Dim::Bare => "stretched: word length",
            Dim::Comment => "stretched: comment length",
            Dim::Single => "stretched: single-quoted length",
            Dim::Quoted => "stretched: double-quoted length",
            Dim::RawLine => "stretched: here-document line length",
            Dim::Name => "stretched: name length",
        }
    }
}

/// Which features a run uses (swarm testing: each run a different subset).
#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: u32,
    pub fuel: i32,
    pub units: u32,
    pub compound: bool,
    pub heredoc: bool,
    pub comments: bool,
    pub cmdsub: bool,
    pub backtick: bool,
    pub param: bool,
    pub arith: bool,
    pub dquote: bool,
    pub squote: bool,
    pub escape: bool,
    pub redirect: bool,
    pub assign: bool,
    pub func: bool,
    pub andor: bool,
    pub unicode: bool,
    pub cont: bool,
    pub glob: bool,
    pub multi: bool,
    /// Extra weight for here-documents.
    pub heavy_hd: bool,
    /// Last line may lack its newline.
    pub open_end: bool,
    /// One list, text or nesting of the program is this much larger than
    /// usual, after so many occasions were passed over.
    pub stretch: Option<(Dim, usize, u32)>,
}

/// Percentage of stretched runs.
const STRETCHED: u32 = 5;

impl Cfg {
    pub fn draw(t: &mut Tape, size: u32) -> Cfg {
        let size = size.max(1);
        let depth = t.range(1, 3);
        let fuel = 4 + t.range(0, 6 * size) as i32;
        let units = 1 + t.range(0, size);
        let mut f = |p: u32| t.chance(p);
        let mut c = Cfg {
            depth,
            fuel,
            units,
            compound: f(65),
            heredoc: f(55),
            comments: f(60),
            cmdsub: f(60),
            backtick: f(50),
            param: f(65),
            arith: f(45),
            dquote: f(65),
            squote: f(60),
            escape: f(50),
            redirect: f(60),
            assign: f(50),
            func: f(45),
            andor: f(65),
            unicode: f(35),
            cont: f(45),
            glob: f(50),
            multi: f(60),
            heavy_hd: false,
            open_end: f(40),
            stretch: None,
        };
        if t.chance(STRETCHED) {
            c.stretch(t);
        }
        c
    }
    fn stretch(&mut self, t: &mut Tape) {
        let d = *t.pick(DIMS);
        let n = match t.weighted(&[40, 35, 20, 5]) {
            0 => t.range(3, 12),
            1 => t.range(12, 48),
            2 => t.range(48, 160),
            _ => t.range(160, 420),
        } as usize;
        let skip = t.weighted(&[60, 25, 15]) as u32;
        let mut n = n;
        match d {
            Dim::Bare | Dim::Comment | Dim::Single | Dim::Quoted | Dim::RawLine | Dim::Name => {
                n *= 1 + 3 * t.below(3);
                if t.chance(3) {
                    n *= 50;
                }
            }
            Dim::Hds => n = n.min(40),
            _ => {}
        }
        match d {
            Dim::ForWords | Dim::Group | Dim::Arms | Dim::Pats | Dim::Elifs | Dim::NestCmd | Dim::Io => {
                self.compound = true;
                self.redirect |= d == Dim::Io;
            }
            Dim::Pipe | Dim::AndOr => self.andor = true,
            Dim::HdLines | Dim::Hds | Dim::RawLine => {
                self.heredoc = true;
                self.redirect = true;
                self.heavy_hd = true;
            }
            Dim::Breaks => self.multi = true,
            Dim::DqPieces | Dim::Quoted => self.dquote = true,
            Dim::SubstPieces => self.param = true,
            Dim::Vars => self.assign = true,
            Dim::NestWord => {
                self.cmdsub = true;
                self.param = true;
                self.dquote = true;
            }
            Dim::ArithChain => self.arith = true,
            Dim::Comment => self.comments = true,
            Dim::Single => self.squote = true,
            _ => {}
        }
        self.stretch = Some((d, n, skip));
    }
    /// Everything plain: the smallest workload.
    pub fn tiny(t: &mut Tape) -> Cfg {
        let mut c = Cfg::draw(t, 1);
        c.fuel = c.fuel.min(6);
        c.depth = c.depth.min(2);
        if let Some((_, n, _)) = &mut c.stretch {
            *n = (*n).min(70);
        }
        c
    }
}

struct Pend {
    buf: Vec<char>,
    meta: Meta,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Close {
    /// `)`, `;;`, closing backtick: no separator needed.
    Free,
    /// `}` or a keyword: a separator is needed.
    Sep,
}

#[derive(Clone, Copy)]
struct W {
    /// First word of a command.
    cmd: bool,
    /// Inside `${...}`.
    sub: bool,
    /// A `case` pattern.
    pat: bool,
}

const RESERVED: &[&str] = &[
    "if", "then", "else", "elif", "fi", "do", "done", "case", "esac", "while", "until", "for", "in", "function", "{", "}", "!",
];

pub struct Gen<'t> {
    t: &'t mut Tape,
    cfg: Cfg,
    out: Vec<char>,
    meta: Meta,
    pend: Vec<Vec<Pend>>,
    nonl: u32,
    /// Here-document bodies being written.
    docs: u32,
    bt: u32,
    /// Inside double quotes or a here-document body.
    quoted: u32,
    depth: u32,
    fuel: i32,
    tag: u32,
    hd: u32,
    no_hd: u32,
    /// The next group must begin with a newline.
    glue: bool,
    /// The next group must not begin with a newline.
    no_pre: bool,
    /// Levels of commands / words still to be nested.
    nest: usize,
    nestw: usize,
    /// Compound commands at this depth get no redirects.
    no_io: u32,
    stretched: Option<(Dim, usize)>,
}

fn c(k: Vec<N>) -> N {
    N::new("C", "", k)
}
fn nl() -> N {
    N::leaf("nl", "")
}
fn n(t: &'static str, k: Vec<N>) -> N {
    N::new(t, "", k)
}
fn lit(s: impl Into<String>) -> N {
    N::leaf("L", s)
}

pub fn program(t: &mut Tape, cfg: Cfg) -> Prog {
    fresh(t, cfg).top()
}

/// One call of a public method and what it is to return.
#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    /// First character of the construct and the one after it.
    pub start: usize,
    pub end: usize,
    /// `None`: the call returns nothing.
    pub want: Option<N>,
    /// Further characters cannot change it from here on.
    pub done: usize,
}

/// A text to be read by calling the methods for single constructs, and the
/// program that follows it.
#[derive(Clone, Debug)]
pub struct Script {
    pub steps: Vec<Step>,
    /// Nothing can follow the last of them.
    pub stop: bool,
    pub p: Prog,
}

pub fn script(t: &mut Tape, cfg: Cfg) -> Script {
    fresh(t, cfg).script()
}

fn fresh(t: &mut Tape, cfg: Cfg) -> Gen<'_> {
    Gen {
        fuel: cfg.fuel,
        t,
        cfg,
        out: Vec::new(),
        meta: Meta::default(),
        pend: vec![Vec::new()],
        nonl: 0,
            docs: 0,
        bt: 0,
        quoted: 0,
        depth: 0,
        tag: 0,
        hd: 0,
        no_hd: 0,
        glue: false,
        no_pre: false,
        nest: 0,
        nestw: 0,
        no_io: 0,
        stretched: None,
    }
}

impl<'t> Gen<'t> {
    fn put(&mut self, s: &str) {
        self.out.extend(s.chars());
    }
    fn here(&self) -> usize {
        self.out.len()
    }
    fn tagn(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }
    fn pending(&self) -> bool {
        self.pend.iter().any(|p| !p.is_empty())
    }
    fn open(&mut self, from: usize, to: usize, at: usize, kind: OpenKind) {
        if from < to {
            self.meta.opens.push(Open { from, to, at, kind });
        }
    }
    /// How many more than usual of `d` to write here.
    fn many(&mut self, d: Dim) -> usize {
        match &mut self.cfg.stretch {
            Some((k, _, skip)) if *k == d && *skip > 0 => {
                *skip -= 1;
                0
            }
            Some((k, n, _)) if *k == d => {
                let n = *n;
                self.cfg.stretch = None;
                self.stretched = Some((d, n));
                self.fuel = self.fuel.min(4);
                n
            }
            _ => 0,
        }
    }
    fn wants(&self, d: &[Dim]) -> bool {
        self.cfg.stretch.map_or(false, |s| d.contains(&s.0))
    }
    /// A long run of letters, or nothing.
    fn filler(&mut self, d: Dim, ascii: bool) -> String {
        let n = self.many(d);
        if n == 0 {
            return String::new();
        }
        let pool: &[&str] = if ascii {
            &["x", "ab9_"]
        } else {
            &["x", "ab9_", "\u{e9}", "\u{65e5}", "\u{1f600}a", "a\u{e9}\u{65e5}\u{1f600}"]
        };
        let p: Vec<char> = self.t.pick(pool).chars().collect();
        (0..n).map(|i| p[i % p.len()]).collect()
    }
    /// Blanks, the first of which is a tab only where that is allowed.
    fn odd_blanks(&mut self, tab: bool) -> String {
        const BLANKS: &[&str] = &[" ", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{3000}", "\t"];
        let mut s = String::new();
        for i in 0..1 + self.t.draw(2) as usize {
            let n = BLANKS.len() - usize::from(i == 0 && !tab);
            s += BLANKS[self.t.draw(n as u32 - 1) as usize];
        }
        s
    }
    /// A character that means nothing to a shell, the odder the better.
    fn odd(&mut self) -> char {
        const ODD: &[char] = &[
            '\u{0}', '\u{1}', '\u{3}', '\u{4}', '\u{7}', '\u{8}', '\u{e}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1f}', '\u{7f}', '\u{80}',
            '\u{ad}', '\u{b7}', '\u{661}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{2010}',
            '\u{ff04}', '\u{ff1b}', '\u{ff08}', '\u{ff1c}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{e000}', '\u{10ffff}',
            '\u{301}', '\u{aa}', '\u{1d7d9}', '\u{2163}', '\u{df}', '\u{130}', '\u{100000}',
        ];
        let ch = match self.t.below(3) {
            0 => *self.t.pick(ODD),
            1 => std::char::from_u32(self.t.draw(0xffff)).unwrap_or('\u{4}'),
            _ => std::char::from_u32(self.t.draw(0x10_ffff)).unwrap_or('\u{1a}'),
        };
        if ch.is_whitespace() || (ch.is_ascii() && !ch.is_ascii_control()) {
            '\u{7f}'
        } else {
            ch
        }
    }
    /// A name for a variable or a function.
    fn vname(&mut self, letter: char) -> String {
        let id = self.tagn();
        match self.t.weighted(&[60, 4, 4, 4, 4, 4]) {
            1 => format!("{}{}", letter.to_ascii_uppercase(), id),
            2 => format!("_{}{}_", letter, id),
            3 if self.cfg.unicode => format!("\u{e9}{}{}\u{65e5}", letter, id),
            4 => {
                let s = *self.t.pick(&["if", "in", "do", "done", "fi", "esac", "for", "function", "case", "_", "__", "a", "then", "E1", "x"]);
                s.to_string()
            }
            5 => format!("{}{}{}", self.t.pick(&["if", "in", "do", "done", "fi", "esac", "for", "PATH"]), letter, id),
            _ => format!("{}{}", letter, id),
        }
    }
    fn small(&self) -> bool {
        self.fuel <= 0 || self.depth >= self.cfg.depth
    }

    fn nl(&mut self) {
        self.out.push('\n');
        let ps = std::mem::take(self.pend.last_mut().unwrap());
        for p in ps {
            let base = self.out.len();
            self.out.extend(p.buf);
            let m = p.meta.remap(&|x| x + base);
            self.meta.extend(m);
        }
    }

    fn sub<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> (R, Vec<char>, Meta) {
        let out = std::mem::take(&mut self.out);
        let meta = std::mem::take(&mut self.meta);
        self.pend.push(Vec::new());
        let r = f(self);
        let left = self.pend.pop().unwrap();
        assert!(left.is_empty(), "here-document left pending in a closed frame");
        let buf = std::mem::replace(&mut self.out, out);
        let m = std::mem::replace(&mut self.meta, meta);
        (r, buf, m)
    }

    /// Optional or required blank.
    fn blank(&mut self, req: bool) {
        let n = self.many(Dim::Blank);
        if n > 0 {
            let s = match self.t.below(5) {
                0 => " ",
                1 => "\t",
                2 => " \t",
                3 if self.cfg.unicode => "\u{3000} \u{a0}",
                _ if self.cfg.cont => " \\\n ",
                _ => "  ",
            };
            for _ in 0..n {
                self.put(s);
            }
            return;
        }
        let k = self.t.weighted(&[70, 8, 8, 4, 3, 7]);
        if k == 0 {
            if req || self.t.chance(40) {
                self.put(" ");
            }
            return;
        }
        match k {
            1 => self.put("  "),
            2 => self.put("\t"),
            3 if self.cfg.unicode => {
                let s = *self.t.pick(&["\u{a0} ", "\u{3000}", "\r", "\u{b}", "\u{c} ", "\u{85}", "\u{2028}\u{2003}"]);
                self.put(s)
            }
            4 => self.put(" \t "),
            5 if self.cfg.cont => self.put(" \\\n "),
            _ => self.put(" "),
        }
    }
    /// A blank that is not a line continuation.
    fn sp(&mut self, req: bool) {
        match self.t.weighted(&[80, 10, 10, if self.cfg.unicode { 4 } else { 0 }]) {
            3 => {
                let s = self.odd_blanks(true);
                self.put(&s);
            }
            0 => {
                if req || self.t.chance(40) {
                    self.put(" ")
                }
            }
            1 => self.put("  "),
            _ => self.put("\t"),
        }
    }

    fn can_nl(&self) -> bool {
        self.nonl == 0 && self.cfg.multi
    }

    /// Comment text without its newline.
    fn comment_text(&mut self) -> String {
        let id = self.tagn();
        let fill = self.filler(Dim::Comment, false);
        let s = match self.t.below(9) {
            0 => format!("#c{}", id),
            1 => format!("# c{} don't", id),
            2 => format!("# c{} \"open ( {{ [", id),
            3 => format!("#{} `back $(", id),
            4 => format!("# c{} ${{x fi done esac }} )", id),
            5 => format!("# c{} a\\", id),
            6 => format!("#!c{} <<EOF ;; && ||", id),
            7 if self.cfg.unicode => format!("# \u{e9}\u{65e5}{} \u{a0}{}", id, self.odd()),
            8 => format!("# c{} # twice\t ", id),
            _ => "#".to_string(),
        };
        s + &fill
    }
    /// One newline, possibly preceded by a comment. The cursor must be at a
    /// place where a `#` would start a comment (a blank precedes it).
    fn newline(&mut self) -> N {
        if self.cfg.comments && self.t.chance(25) {
            let cont = self.cfg.cont && self.t.chance(12);
            self.put(if cont { " \\\n" } else { " " });
            let s = self.comment_text();
            self.put(&s);
            self.nl();
            N::leaf("#", s)
        } else {
            if self.t.chance(10) {
                self.put(" ");
                if self.cfg.unicode && self.t.chance(30) {
                    self.put("\r");
                }
            }
            self.nl();
            nl()
        }
    }
    /// Zero or more newlines and comment lines.
    fn linebreak(&mut self, pct: u32) -> N {
        let mut k = Vec::new();
        if self.nonl != 0 || !self.cfg.multi {
            return c(k);
        }
        for _ in 0..self.many(Dim::Breaks) {
            k.push(self.newline());
        }
        while k.len() < 4 && self.t.chance(pct) {
            k.push(self.newline());
        }
        c(k)
    }

    // ---- top level -----------------------------------------------------

    fn top(mut self) -> Prog {
        let mut tops: Vec<Top> = Vec::new();
        let mut units = Vec::new();
        let nu = self.cfg.units;
        let mut floor = 0;
        for u in 0..nu {
            let last_unit = u + 1 == nu;
            let mut pre = if std::mem::replace(&mut self.no_pre, false) { c(vec![]) } else { self.linebreak(22) };
            let mut ncc = 1 + if self.fuel > 0 { self.t.weighted(&[70, 20, 10]) } else { 0 };
            ncc += self.many(Dim::Tops);
            let first = tops.len();
            for i in 0..ncc {
                self.sp(false);
                let start = self.here();
                let list = self.and_or();
                let end = self.here();
                let last = i + 1 == ncc;
                let (sep, cm, was_nl);
                let mut sep_end = end;
                if !last {
                    self.blank(false);
                    let s = *self.t.pick(&[";", "&"]);
                    self.put(s);
                    sep = s;
                    cm = c(vec![]);
                    was_nl = false;
                    sep_end = self.here();
                    self.blank(false);
                } else {
                    let stop = last_unit && self.cfg.open_end && !self.pending();
                    let k = self.t.weighted(&[60, 20, 20]);
                    if k > 0 {
                        self.blank(false);
                        self.put([";", "&"][k - 1]);
                        sep_end = self.here();
                    }
                    if stop && self.t.chance(60) {
                        cm = c(vec![]);
                        sep = ["other", ";", "&"][k];
                        was_nl = false;
                    } else {
                        let x = self.newline();
                        cm = c(vec![x]);
                        sep = ["nl", ";", "&"][k];
                        was_nl = true;
                    }
                }
                let pend = self.pending();
                if was_nl {
                    sep_end = self.here();
                }
                let done = if sep == "other" {
                    usize::MAX
                } else if was_nl {
                    self.here()
                } else if pend {
                    0 // fixed at the end of the line
                } else {
                    sep_end
                };
                let n = N::new("cc", sep, vec![std::mem::replace(&mut pre, c(vec![])), list, cm]);
                tops.push(Top { start, end, sep_end, done, unit: u as usize, nl: was_nl, n });
            }
            let end = self.here();
            for t in &mut tops[first..] {
                if t.done == 0 {
                    t.done = end;
                }
                floor = floor.max(t.done);
                t.done = floor;
            }
            if tops.last().map_or(false, |t| t.nl) {
                units.push(end);
            }
        }
        let mut trailing = c(vec![]);
        if tops.last().map_or(true, |t| t.nl) {
            let lb = self.linebreak(20);
            trailing = lb;
            if self.cfg.comments && self.t.chance(6) {
                let s = self.comment_text();
                self.put(&s);
                let mut k = trailing.k.clone();
                k.push(N::leaf("#", s));
                trailing = c(k);
            }
        }
        assert!(!self.pending());
        Prog { text: self.out, tops, units, meta: self.meta, trailing, stretched: self.stretched }
    }

    // ---- single constructs -------------------------------------------------

    fn script(mut self) -> Script {
        let mut steps: Vec<Step> = Vec::new();
        let lines = 1 + self.t.weighted(&[55, 30, 15]);
        for _ in 0..lines {
            self.fuel = self.cfg.fuel;
            let first = steps.len();
            if self.line(&mut steps) {
                let end = self.here();
                for s in &mut steps[first..] {
                    s.done = end;
                }
                let text = self.out;
                let p = Prog { text, tops: vec![], units: vec![], meta: self.meta, trailing: c(vec![]), stretched: self.stretched };
                return Script { steps, stop: true, p };
            }
            // the rest of the line
            self.blank(false);
            let many = self.t.chance(35);
            let start = self.here();
            let mut k = vec![self.newline()];
            if many {
                k.extend(self.linebreak(40).k);
            }
            let end = self.here();
            // further newlines would be taken as well
            self.no_pre = many;
            steps.push(Step { op: if many { Op::Linebreak } else { Op::Newline }, start, end, want: Some(c(k)), done: end });
            for s in &mut steps[first..] {
                s.done = end;
            }
            if many {
                steps.last_mut().unwrap().done = usize::MAX;
            }
        }
        self.fuel = self.cfg.fuel.min(8);
        self.cfg.units = self.cfg.units.min(2);
        let p = self.top();
        Script { steps, stop: false, p }
    }

    /// What a single line of constructs consists of.
    fn line(&mut self, steps: &mut Vec<Step>) -> bool {
        let k = self.t.below(26);
        // several words and redirects
        if k < 4 {
            let m = 1 + self.t.weighted(&[30, 30, 20, 20]);
            for i in 0..m {
                if i > 0 {
                    self.ws();
                } else {
                    self.blank(false);
                }
                let start = self.here();
                let (op, want) = match self.t.below(5) {
                    0 => (Op::WordWs, self.word(W { cmd: false, sub: false, pat: false })),
                    1 => (Op::Redirect, n("word", vec![self.word(W { cmd: false, sub: false, pat: false })])),
                    2 | 3 if self.cfg.redirect => (Op::Redirect, n("redirect", vec![self.redirect()])),
                    _ => (Op::Word, self.word(W { cmd: false, sub: false, pat: false })),
                };
                let end = self.here();
                steps.push(Step { op, start, end, want: Some(want), done: 0 });
            }
            return false;
        }
        // Some methods do not pass over blanks.
        if !matches!(k, 4..=8) {
            self.blank(false);
        }
        let start = self.here();
        let (op, want) = match k {
            4 => {
                let d = if self.t.chance(50) { self.simple_param().0 } else { vec![self.param_subst()] };
                (Op::Parameter, n("w", d))
            }
            5 => {
                let d = if self.t.chance(50) { self.cmd_subst() } else { self.arith() };
                (Op::Parameter, n("w", vec![d]))
            }
            6 => (Op::Backtick, n("w", vec![self.backtick()])),
            7 => (Op::Heredoc, self.heredoc("3".into())),
            8 => (Op::Subshell, self.paren_group()),
            9 => (Op::Arith, self.arith_body()),
            10 => (Op::AndOr, self.and_or()),
            11 => (Op::Pipeline, self.pipeline()),
            12 => {
                self.meta.starts.push(start);
                (Op::Command, self.command())
            }
            13 => {
                self.meta.starts.push(start);
                (Op::Simple, self.simple())
            }
            14 => {
                let m = (self.t.below(4) + self.many(Dim::Io)).max(usize::from(self.no_pre));
                let mut v = Vec::new();
                for i in 0..m {
                    if i > 0 {
                        self.ws();
                    }
                    v.push(self.redirect());
                }
                (Op::RedirectList, n("io", v))
            }
            15 => (Op::Compound, self.compound(None)),
            16 => (Op::Brace, self.part_of(0)),
            17 => {
                let k = 2 + self.t.below(2);
                (Op::Loop, self.part_of(k))
            }
            18 => (Op::If, self.part_of(4)),
            19 => (Op::For, self.part_of(5)),
            20 => (Op::Case, self.part_of(6)),
            21 => {
                let at = self.here();
                self.depth += 1;
                let g = self.do_group(at, "");
                self.depth -= 1;
                (Op::DoGroup, g)
            }
            22 => (Op::Function, self.function()),
            23 => {
                let f = self.function();
                (Op::MaybeFn, f)
            }
            k => {
                // a list up to a word or token of the caller's choice
                let (i, close) = *self.t.pick(&[
                    (1, "done"),
                    (1, "fi"),
                    (1, "esac"),
                    (3, "}"),
                    (4, "then"),
                    (4, "do"),
                    (5, "fi"),
                    (5, "elif"),
                    (5, "}"),
                    (2, ")"),
                    (2, ";;"),
                    (5, ")"),
                    (5, ";;"),
                ]);
                let _ = k;
                let free = matches!(close, ")" | ";;");
                self.depth += 1;
                let g = self.group(if free { Close::Free } else { Close::Sep }, 1, free);
                self.depth -= 1;
                if close == ";;" && self.out.last() == Some(&';') {
                    // `;;;` is lexed from the left
                    self.put(" ");
                }
                let end = self.here();
                self.put(close);
                steps.push(Step { op: Op::Group(i), start, end, want: Some(g), done: 0 });
                if free {
                    // nothing can take it
                    return true;
                }
                let from = self.here();
                let (op, w) = match close {
                    "}" => (Op::ResTok(0), N::leaf("tok", "CurlyClose")),
                    s => (Op::ResWord(0), N::leaf("kw", s)),
                };
                steps.push(Step { op, start: end, end: from, want: Some(w), done: 0 });
                return false;
            }
        };
        let end = self.here();
        steps.push(Step { op, start, end, want: Some(want), done: 0 });
        false
    }

    /// A compound command without the redirects after it.
    fn part_of(&mut self, k: usize) -> N {
        self.no_io = self.depth + 1;
        let mut x = self.compound_of(None, Some(k));
        self.no_io = 0;
        let io = x.k.pop().unwrap();
        assert!(io.t == "io" && io.k.is_empty());
        if k == 0 {
            return x.k.pop().unwrap();
        }
        N::new(x.t, x.s, x.k)
    }

    // ---- lists -----------------------------------------------------------

    /// Commands up to a closer that the caller writes; with `flush` no
    /// here-document may stay pending.
    fn group(&mut self, close: Close, min: usize, flush: bool) -> N {
        let mut out = Vec::new();
        let glue = std::mem::replace(&mut self.glue, false);
        let no_pre = std::mem::replace(&mut self.no_pre, false);
        let mut pre = if glue {
            let x = self.newline();
            let mut k = vec![x];
            k.extend(self.linebreak(15).k);
            c(k)
        } else if !no_pre && self.can_nl() && self.t.chance(25) {
            self.linebreak(60)
        } else {
            c(vec![])
        };
        let mut ncc = min.max(if self.fuel > 0 { self.t.weighted(&[8, 62, 20, 10]) } else { 1 });
        if min == 0 && ncc == 0 && self.t.chance(50) {
            ncc = 1;
        }
        if ncc > 0 {
            ncc += self.many(Dim::Group);
        }
        let mut ended_nl = true;
        for i in 0..ncc {
            self.sp(false);
            let list = self.and_or();
            let last = i + 1 == ncc;
            let must_nl = last && flush && !self.pend.last().unwrap().is_empty();
            let (sep, cm);
            // none / ; / & / newline / ; newline / & newline
            let can_nl = self.nonl == 0;
            let w: [u32; 6] = [
                if last && close == Close::Free && !must_nl { 40 } else { 0 },
                if must_nl { 0 } else { 30 },
                if must_nl { 0 } else { 12 },
                if can_nl && (self.cfg.multi || must_nl) { 25 } else { 0 },
                if can_nl && (self.cfg.multi || must_nl) { 6 } else { 0 },
                if can_nl && (self.cfg.multi || must_nl) { 4 } else { 0 },
            ];
            let k = self.t.weighted(&w);
            ended_nl = k >= 3;
            match k {
                0 => {
                    sep = "other";
                    cm = c(vec![]);
                    self.blank(false);
                }
                1 | 2 => {
                    self.blank(false);
                    sep = [";", "&"][k - 1];
                    self.put(sep);
                    cm = c(vec![]);
                    self.blank(true);
                }
                _ => {
                    sep = ["nl", ";", "&"][k - 3];
                    if k > 3 {
                        self.blank(false);
                        self.put(sep);
                    }
                    let x = self.newline();
                    cm = c(vec![x]);
                }
            }
            out.push(N::new("cc", sep, vec![std::mem::replace(&mut pre, c(vec![])), list, cm]));
            if ended_nl && self.can_nl() && self.t.chance(15) {
                pre = self.linebreak(50);
            }
        }
        let _ = ended_nl;
        out.push(pre);
        n("grp", out)
    }

    fn and_or(&mut self) -> N {
        self.fuel -= 1;
        let mut k = vec![self.pipeline()];
        let mut more = if self.cfg.andor && self.fuel > 0 { self.t.weighted(&[75, 18, 7]) } else { 0 };
        more += self.many(Dim::AndOr);
        for _ in 0..more {
            self.blank(false);
            let and = self.t.chance(50);
            self.put(if and { "&&" } else { "||" });
            let from = self.here() - usize::from(!and);
            let lb = self.linebreak(15);
            self.blank(false);
            let at = self.here();
            self.open(from, at + 1, from, OpenKind::Dangling);
            let p = self.pipeline();
            k.push(n(if and { "and" } else { "or" }, vec![lb, p]));
        }
        n("ao", k)
    }

    fn pipeline(&mut self) -> N {
        let start = self.here();
        self.meta.starts.push(start);
        let bang = self.cfg.andor && self.t.chance(8);
        if bang {
            self.put("!");
            let from = self.here();
            self.blank(true);
            let at = self.here();
            self.open(from, at + 1, from, OpenKind::Dangling);
        }
        let mut k = Vec::new();
        let mut more = if self.cfg.andor && self.fuel > 0 { self.t.weighted(&[80, 14, 6]) } else { 0 };
        more += self.many(Dim::Pipe);
        let mut cmd = self.command();
        for _ in 0..more {
            self.blank(false);
            self.put("|");
            let from = self.here();
            let lb = self.linebreak(12);
            self.blank(false);
            let at = self.here();
            self.open(from, at + 1, from, OpenKind::Dangling);
            k.push(n("pe", vec![cmd, lb]));
            self.meta.starts.push(at);
            cmd = self.command();
        }
        k.push(n("pe", vec![cmd, c(vec![])]));
        N::new("pipe", if bang { "!" } else { "" }, k)
    }

    fn command(&mut self) -> N {
        if self.nest == 0 && self.wants(&[Dim::NestCmd]) {
            self.nest = self.many(Dim::NestCmd);
        }
        if self.nest > 0 {
            self.nest -= 1;
            return self.compound(None);
        }
        if self.depth < self.cfg.depth {
            let k = match self.cfg.stretch {
                Some((Dim::ForWords, ..)) => Some(5),
                Some((Dim::Arms, ..)) | Some((Dim::Pats, ..)) => Some(6),
                Some((Dim::Elifs, ..)) => Some(4),
                Some((Dim::Group, ..)) | Some((Dim::Io, ..)) => Some(self.t.below(7)),
                _ => None,
            };
            if k.is_some() && self.t.chance(50) {
                return self.compound_of(None, k);
            }
        }
        if !self.small() {
            let w = [
                60,
                if self.cfg.compound { 40 } else { 0 },
                if self.cfg.func { 9 } else { 0 },
            ];
            match self.t.weighted(&w) {
                1 => return self.compound(None),
                2 => return self.function(),
                _ => {}
            }
        }
        self.simple()
    }

    fn ws(&mut self) {
        self.blank(true)
    }

    fn simple(&mut self) -> N {
        self.fuel -= 1;
        let mut vars = Vec::new();
        let mut args = Vec::new();
        let mut first = true;
        if self.cfg.assign || self.cfg.redirect {
            let nv = self.t.weighted(&[75, 17, 8]);
            for _ in 0..nv + self.many(Dim::Vars) {
                if !first {
                    self.ws();
                }
                first = false;
                if self.cfg.assign && (!self.cfg.redirect || self.t.chance(70)) {
                    vars.push(self.assignment());
                } else if self.cfg.redirect {
                    vars.push(self.redirect());
                }
            }
        }
        let only = !first && self.t.chance(25);
        if !only {
            if !first {
                self.ws();
            }
            let w = self.word(W { cmd: true, sub: false, pat: false });
            let mut tight = !digits(&w);
            args.push(w);
            let na = self.t.weighted(&[35, 35, 20, 10]) + self.many(Dim::Args);
            if self.hd_ok() {
                for _ in 0..self.many(Dim::Hds) {
                    self.ws();
                    let fd = self.fd(true);
                    let h = self.heredoc(fd);
                    args.push(h);
                    tight = false;
                }
            }
            for _ in 0..na {
                let heavy = self.cfg.heavy_hd && self.hd_ok();
                if (self.cfg.redirect || heavy) && self.t.chance(if heavy { 45 } else { 25 }) {
                    let before = self.here();
                    if !(tight && self.t.chance(20)) {
                        self.ws();
                    }
                    let glued = before == self.here();
                    args.push(self.redirect_fd(!glued));
                    tight = false;
                } else {
                    self.ws();
                    let w = self.word(W { cmd: false, sub: false, pat: false });
                    tight = !digits(&w);
                    args.push(w);
                }
            }
        }
        n("sc", vec![n("vars", vars), n("args", args)])
    }

    fn assignment(&mut self) -> N {
        let id = self.tagn();
        let name = match self.t.below(4) {
            0 => format!("V{}", id),
            1 => format!("_v{}", id),
            2 => self.vname('v'),
            _ => format!("v{}_x", id),
        };
        let name = name + &self.filler(Dim::Name, true);
        self.not_reserved(&name);
        self.put(&name);
        self.put("=");
        // An empty value must not be followed by a continuation: say it with
        // an explicit blank.
        if self.t.chance(12) {
            self.put(" ");
            return N::new("as", name, vec![]);
        }
        let k = if self.t.chance(6) {
            // a value that begins with `#`
            let id = self.tagn();
            let s = format!("#v{}", id);
            self.put(&s);
            n("w", vec![lit(s)])
        } else {
            self.word(W { cmd: false, sub: false, pat: false })
        };
        N::new("as", name, vec![k])
    }

    fn hd_ok(&self) -> bool {
        self.cfg.heredoc && self.nonl == 0 && self.no_hd == 0 && self.depth < 6
    }

    fn redirect(&mut self) -> N {
        self.redirect_fd(true)
    }

    /// A descriptor in front of a redirect; its value.
    fn fd(&mut self, ok: bool) -> String {
        if !ok || !self.t.chance(30) {
            return String::new();
        }
        let (s, v) = *self.t.pick(&[
            ("2", "2"),
            ("1", "1"),
            ("0", "0"),
            ("10", "10"),
            ("9", "9"),
            ("255", "255"),
            ("256", "256"),
            ("65535", "65535"),
            ("007", "7"),
            ("32768", "32768"),
        ]);
        self.put(s);
        v.to_string()
    }

    fn redirect_fd(&mut self, fd_ok: bool) -> N {
        self.fuel -= 1;
        let fd = self.fd(fd_ok);
        let hd = if self.hd_ok() { if self.cfg.heavy_hd { 60 } else { 22 } } else { 0 };
        let k = self.t.weighted(&[14, 14, 6, 8, 5, 7, 7, hd]);
        if k == 7 {
            return self.heredoc(fd);
        }
        let (op, t): (&str, &'static str) = [
            ("<", "r<"),
            (">", "r>"),
            ("<>", "r<>"),
            (">>", "r>>"),
            (">|", "r>|"),
            ("<&", "r<&"),
            (">&", "r>&"),
        ][k];
        let from = self.here() + 1;
        self.put(op);
        self.blank(false);
        let at = self.here();
        self.open(from, at + 1, from - 1, OpenKind::Dangling);
        let w = if k >= 5 {
            if self.t.chance(20) {
                self.put("-");
                n("w", vec![lit("-")])
            } else {
                self.dup_word()
            }
        } else {
            self.word(W { cmd: false, sub: false, pat: false })
        };
        N::new(t, fd, vec![w])
    }

    /// A word that may turn out to be a number.
    fn dup_word(&mut self) -> N {
        let k = 1 + self.t.weighted(&[70, 20, 10]);
        let mut out = Vec::new();
        let mut tail = Tail::None;
        for _ in 0..k {
            let deep = self.small();
            let f = &self.cfg;
            let wt = [
                if tail == Tail::None { 30 } else { 0 },
                14,
                14,
                14,
                if f.escape { 6 } else { 0 },
                if f.param && self.depth < 5 { 8 } else { 0 },
                if f.cmdsub && !deep { 9 } else { 0 },
                if f.backtick && !deep && self.bt < 2 { 7 } else { 0 },
                if f.arith { 7 } else { 0 },
            ];
            let w = self.t.weighted(&wt);
            let was = std::mem::replace(&mut tail, Tail::None);
            match w {
                1 => {
                    let a = self.here();
                    let d = match self.t.below(4) {
                        0 => String::new(),
                        1 => self.t.draw(65536).to_string(),
                        _ => self.t.draw(9).to_string(),
                    };
                    self.put(&format!("'{}'", d));
                    let e = self.here();
                    self.open(a + 1, e, a, OpenKind::Tok("'"));
                    out.push(N::leaf("S", d));
                }
                2 => {
                    let (mut p, t) = self.simple_param();
                    tail = t;
                    out.append(&mut p);
                }
                3 => out.push(self.dup_double()),
                4 => {
                    let d = self.t.draw(10).to_string();
                    self.put("\\");
                    self.put(&d);
                    out.push(N::leaf("E", d));
                }
                5 => out.push(self.param_subst()),
                6 => out.push(self.cmd_subst()),
                7 => out.push(self.backtick()),
                8 => out.push(self.arith()),
                _ if was == Tail::None => {
                    let d = match self.t.below(6) {
                        0 => "007".to_string(),
                        1 => "65536".to_string(),
                        2 => self.t.draw(99).to_string(),
                        _ => self.t.draw(9).to_string(),
                    };
                    self.put(&d);
                    out.push(lit(d));
                }
                _ => {
                    self.put("''");
                    let e = self.here();
                    self.open(e - 1, e, e - 2, OpenKind::Tok("'"));
                    out.push(N::leaf("S", ""));
                }
            }
        }
        n("w", out)
    }

    fn dup_double(&mut self) -> N {
        let a = self.here();
        self.put("\"");
        self.quoted += 1;
        self.pend.push(Vec::new());
        let k = self.t.weighted(&[6, 44, 30, 20]);
        let mut out = Vec::new();
        let mut tail = Tail::None;
        for _ in 0..k {
            let deep = self.small();
            let f = &self.cfg;
            let wt = [
                if tail == Tail::None { 20 } else { 0 },
                25,
                if f.param && self.depth < 5 { 8 } else { 0 },
                if f.cmdsub && !deep { 9 } else { 0 },
                if f.backtick && !deep && self.bt < 2 { 7 } else { 0 },
                if f.arith { 7 } else { 0 },
            ];
            let w = self.t.weighted(&wt);
            let was = std::mem::replace(&mut tail, Tail::None);
            out.push(match w {
                2 => self.param_subst(),
                3 => self.cmd_subst(),
                4 => self.backtick(),
                5 => self.arith(),
                0 if was == Tail::None => {
                    let d = self.t.draw(100).to_string();
                    self.put(&d);
                    lit(d)
                }
                _ => {
                    let (mut p, t) = self.simple_param();
                    tail = t;
                    p.pop().unwrap()
                }
            });
        }
        let left = self.pend.pop().unwrap();
        assert!(left.is_empty());
        self.quoted -= 1;
        self.put("\"");
        let e = self.here();
        self.open(a + 1, e, a, OpenKind::Tok("\""));
        n("D", out)
    }

    fn heredoc(&mut self, fd: String) -> N {
        self.hd += 1;
        let id = self.hd;
        let strip = self.t.chance(35);
        let from = self.here() + 1;
        self.put(if strip { "<<-" } else { "<<" });
        // `<<` directly followed by `-` would be the other operator
        self.sp(false);
        let at = self.here();
        self.open(from, at + 1, from - 1, OpenKind::Dangling);
        let (spell, delim, quoted, spans) = self.delimiter(id);
        let sq = self.here();
        self.put(&spell);
        for (i, j, tok) in spans {
            self.open(sq + i + 1, sq + j + 1, sq + i, OpenKind::Tok(tok));
        }
        let (word, plain, mut buf, meta, delim_at) = self.heredoc_body(strip, quoted, &delim);
        let cr = self.cfg.unicode && self.t.chance(10);
        if strip && self.t.chance(40) {
            buf.extend("\t".chars());
            if self.t.chance(30) {
                buf.extend("\t\t".chars());
            }
        }
        buf.extend(delim.chars());
        if cr {
            buf.push('\r');
        }
        buf.push('\n');
        let mut meta = meta;
        if !quoted && delim.contains('$') {
            // part of the delimiter would be expanded as the last line
            let from = buf.iter().rposition(|c| *c == '$').unwrap();
            let from = buf[..from].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
            meta.vague.extend(from..buf.len());
        }
        meta.hds.push(HdSpan {
            id,
            body: 0,
            delim_at,
            end: buf.len(),
            strip,
            delim,
            plain: plain || quoted,
            quoted,
        });
        self.pend.last_mut().unwrap().push(Pend { buf, meta });
        let mut r = N::new("r<<", fd, vec![word]);
        r.id = id;
        r
    }

    /// Spelling of a here-document delimiter, what it spells, whether it is
    /// quoted, and the delimiters within the spelling that have to be closed
    /// (offsets of both ends).
    #[allow(clippy::type_complexity)]
    fn delimiter(&mut self, id: u32) -> (String, String, bool, Vec<(usize, usize, &'static str)>) {
        let base = format!("E{}", id);
        let r = |s: String, d: String, q: bool| (s, d, q);
        let fill = self.filler(Dim::Name, false);
        // Not unique, therefore only where nothing else may read such a line.
        let outer = self.quoted == 0 && self.bt == 0 && self.docs == 0;
        let bt = self.bt > 0;
        let (s, d, q) = match self.t.weighted(&[50, 14, 10, 8, 6, 4, 4, 4, 20]) {
            _ if !fill.is_empty() => r(format!("{}-{}", base, fill), format!("{}-{}", base, fill), false),
            0 => r(base.clone(), base, false),
            1 => r(format!("'{}'", base), base, true),
            2 => r(format!("\"{}\"", base), base, true),
            3 => r(format!("\\{}", base), base, true),
            4 => r(format!("E'{}'x", id), format!("E{}x", id), true),
            5 => r(format!("'E {}'", id), format!("E {}", id), true),
            6 => r(format!("E-{}+", id), format!("E-{}+", id), false),
            7 => r(format!("\"E\\\"{}\"", id), format!("E\"{}", id), true),
            _ => match self.t.below(24) {
                0 if self.cfg.unicode => {
                    let ch = self.odd();
                    r(format!("{}{}\u{65e5}", ch, id), format!("{}{}\u{65e5}", ch, id), false)
                }
                1 if self.cfg.unicode => r(format!("'\u{1f600}{}'", id), format!("\u{1f600}{}", id), true),
                2 => {
                    let d = format!("{}-a=b*c?[d]~:%@^,./x{}", base, id);
                    r(d.clone(), d, false)
                }
                3 => r(format!("{}$x{}", base, id), format!("{}$x{}", base, id), false),
                4 => r(format!("{}${{x}}", base), format!("{}${{x}}", base), false),
                5 => r(format!("$(a {})z", base), format!("$(a {})z", base), false),
                6 => r(format!("(a {})", base), format!("(a {})", base), false),
                7 if !bt => r(format!("`{} x`", base), format!("`{} x`", base), true),
                8 => r(format!("{}", 7_000_000 + id), format!("{}", 7_000_000 + id), false),
                9 => r(format!("E\\ {}", id), format!("E {}", id), true),
                10 => r(format!("\"E\"'x'\\y{}", id), format!("Exy{}", id), true),
                11 if !bt => r(format!("\"E\\\\{}\"", id), format!("E\\{}", id), true),
                12 if !bt => r(format!("\"E\\a{}\"", id), format!("E\\a{}", id), true),
                13 if !bt => r(format!("\"E\\$\\`{}\"", id), format!("E$`{}", id), true),
                14 => r(format!("{}}}#", base), format!("{}}}#", base), false),
                15 => r(format!("{}{{a}}", base), format!("{}{{a}}", base), false),
                16 => {
                    let w = *self.t.pick(&["done", "fi", "esac", "}", ")", ";;", "#", "do", "-", "EOF", "$x", "if"]);
                    if outer {
                        r(format!("'{}'", w), w.to_string(), true)
                    } else {
                        r(format!("'{}{}'", w, base), format!("{}{}", w, base), true)
                    }
                }
                17 if outer => {
                    let w = *self.t.pick(&["!", ".", "%", "@", "+"]);
                    r(w.to_string(), w.to_string(), false)
                }
                18 => r(format!("''{}", base), base, true),
                19 => r(format!("{}\"\"", base), base, true),
                20 => r(format!("'{}\"x'", base), format!("{}\"x", base), true),
                21 => r(format!("\"{} 'x'  ;\"", base), format!("{} 'x'  ;", base), true),
                22 => r(format!("{}\\'", base), format!("{}'", base), true),
                _ => r(format!("_{}", base), format!("_{}", base), false),
            },
        };
        let cs: Vec<char> = s.chars().collect();
        let mut spans = Vec::new();
        let mut i = 0;
        while i < cs.len() {
            let (open, close) = match cs[i] {
                '\\' => {
                    i += 2;
                    continue;
                }
                '\'' => ("'", '\''),
                '"' => ("\"", '"'),
                '`' => ("`", '`'),
                '(' => ("(", ')'),
                '{' if i > 0 && cs[i - 1] == '$' => ("{", '}'),
                _ => {
                    i += 1;
                    continue;
                }
            };
            let mut j = i + 1;
            while cs[j] != close {
                j += if cs[j] == '\\' && open != "'" { 2 } else { 1 };
            }
            spans.push((i, j, open));
            i = j + 1;
        }
        (s, d, q, spans)
    }

    fn heredoc_body(&mut self, strip: bool, quoted: bool, delim: &str) -> (N, bool, Vec<char>, Meta, usize) {
        let lines = self.t.weighted(&[15, 40, 25, 15, 5]) + self.many(Dim::HdLines);
        self.quoted += 1;
        self.depth += 1;
        let mut plain = true;
        let mut pieces: Vec<N> = Vec::new();
        let delim = delim.to_string();
        let tame = !delim.contains(|ch| matches!(ch, '$' | '`' | '\\'));
        // tabs after a newline inside a nested construct would be stripped
        self.nonl += u32::from(strip);
        self.docs += 1;
        let ((), buf, meta) = self.sub(|g| {
            for _ in 0..lines {
                if strip {
                    let tabs = g.t.weighted(&[50, 30, 15, 5]);
                    for _ in 0..tabs {
                        g.put("\t");
                    }
                }
                if g.cfg.unicode && g.t.chance(6) {
                    // blanks which are no tabs, or which follow one that is none
                    let s = g.odd_blanks(!strip);
                    g.put(&s);
                    pieces.push(lit(s));
                }
                if quoted {
                    let s = g.raw_line(&delim);
                    g.put(&s);
                    pieces.push(lit(s));
                } else {
                    // a few fragments
                    let k = g.t.weighted(&[10, 40, 30, 20]);
                    let mut tail = Tail::None;
                    for j in 0..k {
                        let p = g.quoted_piece(true, tail, j == 0 && strip);
                        tail = p.1;
                        if p.0.t != "L" {
                            plain = false;
                        }
                        pieces.push(p.0);
                    }
                    if k > 0 && tame && g.t.chance(15) {
                        // near misses of the delimiter at the end of a line
                        let s = format!(" {}", delim);
                        g.put(&s);
                        pieces.push(lit(s));
                    } else if k == 0 && g.t.chance(30) {
                        let s = match g.t.below(3) {
                            0 => format!("{}x", delim),
                            1 => format!(" {}", delim),
                            _ => format!("{} ", delim),
                        };
                        if tame {
                            g.put(&s);
                            pieces.push(lit(s));
                        }
                    } else if k > 0 && tail == Tail::None && g.t.chance(8) && g.cfg.escape {
                        g.put("\\\n");
                        plain = false;
                        pieces.push(N::leaf("E", "\n"));
                        let id = g.tagn();
                        let s = format!("z{}", id);
                        g.put(&s);
                        pieces.push(lit(s));
                    }
                }
                g.out.push('\n');
                pieces.push(lit("\n"));
            }
        });
        self.nonl -= u32::from(strip);
        self.docs -= 1;
        self.depth -= 1;
        self.quoted -= 1;
        let delim_at = buf.len();
        (n("w", pieces), plain, buf, meta, delim_at)
    }

    /// A line of a quoted here-document (everything literal).
    fn raw_line(&mut self, delim: &str) -> String {
        let id = self.tagn();
        let fill = self.filler(Dim::RawLine, false);
        if !fill.is_empty() {
            return format!("r{} {}", id, fill);
        }
        match self.t.below(10) {
            0 => String::new(),
            1 => format!("r{} $x ${{y}} `z`", id),
            2 => format!("r{} 'a \"b", id),
            3 => format!("r{} \\$x \\\\ \\", id),
            4 => format!("{} ", delim),
            5 => format!(" {}", delim),
            6 => format!("{}x", delim),
            7 => format!("r{} $( ( {{ done fi", id),
            8 if self.cfg.unicode => format!("{}\u{e9}\u{65e5}{}\ta\t", self.odd(), id),
            _ => format!("r{}\tb\t\tc # x", id),
        }
    }

    // ---- words -----------------------------------------------------------

    fn word(&mut self, w: W) -> N {
        self.fuel -= 1;
        let mut k = 1 + self.t.weighted(&[60, 25, 10, 5]) + self.many(Dim::Pieces);
        let mut pieces = Vec::new();
        let mut tail = Tail::None;
        let mut i0 = 0;
        if self.t.chance(4) {
            // A reserved word where it is none, or as part of a longer word.
            let s = *self.t.pick(RESERVED);
            // `!x` is a negated `x` to the parser
            let s = if w.cmd && s == "!" { "do" } else { s };
            self.reserved(s);
            pieces.push(lit(s));
            if w.cmd || w.sub || w.pat || k > 1 || self.nestw > 0 {
                let p = if let Some(p) = self.nested() {
                    p
                } else if self.t.chance(60) {
                    let a = self.here();
                    let q = *self.t.pick(&["''", "\"\""]);
                    self.put(q);
                    self.open(a + 1, a + 2, a, OpenKind::Tok(&q[..1]));
                    if q == "''" {
                        N::leaf("S", "")
                    } else {
                        n("D", vec![])
                    }
                } else {
                    self.put("\\x");
                    N::leaf("E", "x")
                };
                pieces.push(p);
            }
            i0 = 1;
            k = k.max(1);
        } else if self.nestw == 0 && self.t.chance(3) {
            // nearly a number
            let s = *self.t.pick(&["+1", "-1", "1a", "0x1", "1.5", "1_", "65536", "99999999999999999999", "\u{663}", "1\u{ff11}", "+", "1,2", "--1"]);
            if self.cfg.unicode || s.is_ascii() {
                self.put(s);
                pieces.push(lit(s));
                i0 = 1;
            }
        }
        for i in i0..k {
            let (p, t) = self.piece(w, i == 0, tail);
            tail = t;
            pieces.extend(p);
        }
        n("w", pieces)
    }

    fn reserved(&mut self, s: &str) {
        self.not_reserved(s);
        self.put(s);
    }
    /// The word about to be written begins with the reserved word `s`.
    fn not_reserved(&mut self, s: &str) {
        let a = self.here();
        for r in RESERVED {
            if s.starts_with(r) {
                self.meta.vague.push(a + r.len());
            }
        }
    }

    fn bareword(&mut self, w: W, first: bool, tail: Tail) -> String {
        let id = self.tagn();
        if tail != Tail::None {
            // must not continue a name, a number or a `$`
            return match self.t.below(4) {
                0 => format!("/w{}", id),
                1 => format!("-w{}", id),
                2 => format!(",{}", id),
                _ => format!(".w{}", id),
            };
        }
        let fill = self.filler(Dim::Bare, false);
        if !fill.is_empty() {
            return format!("w{}{}", id, fill);
        }
        let opts: &[u32] = &[40, 6, 6, 6, 6, 4, 4, 4, 4, 3, 3, 4, 3, 3, 3, 3, 4];
        match self.t.weighted(opts) {
            0 => format!("w{}", id),
            1 => format!("./w{}.x", id),
            2 => format!("w{}-y", id),
            3 => format!("-w{}", id),
            4 => format!("{}", 100 + id),
            5 => format!("a{}#b", id),
            6 => format!("w{}%+@^,", id),
            7 if !w.sub => format!("w{}{{a,b}}", id),
            8 if self.cfg.unicode => format!("\u{e9}{}\u{65e5}", id),
            9 if !w.cmd => format!("-x{}=y", id),
            10 if !first => format!("!{}", id),
            11 if !first || !w.cmd => format!("+{}", id),
            12 => format!("{}", [65_536u64, 70_000, 4_294_967_296, 99_999_999_999_999][id as usize % 4] + id as u64),
            14 if !w.cmd => format!("a{}=y", id),
            16 if self.cfg.unicode => {
                let ch = self.odd();
                match self.t.below(4) {
                    0 => format!("{}", ch),
                    1 => format!("{}{}", ch, id),
                    2 => format!("w{}{}", id, ch),
                    _ => format!("{}{}{}", ch, self.odd(), id),
                }
            }
            15 => {
                let s = *self.t.pick(&RESERVED[..14]);
                self.not_reserved(s);
                match self.t.below(3) {
                    0 => format!("{}{}", s, id),
                    1 => format!("{}-{}", s, id),
                    _ => format!("{}_{}", s, id),
                }
            }
            13 if self.cfg.unicode => format!("\u{1f600}{}\u{feff}\u{200b}\u{661}", id),
            _ => format!("k{}", id),
        }
    }

    /// A fragment of an unquoted word; may give several pieces.
    fn piece(&mut self, w: W, first: bool, tail: Tail) -> (Vec<N>, Tail) {
        if let Some(p) = self.nested() {
            return (vec![p], Tail::None);
        }
        let deep = self.small();
        let f = &self.cfg;
        let wt = [
            50,
            if f.squote { 10 } else { 0 },
            if f.dquote { 14 } else { 0 },
            if f.param { 12 } else { 0 },
            if f.param && self.depth < 5 { 10 } else { 0 },
            if f.cmdsub && !deep { 9 } else { 0 },
            if f.backtick && !deep && self.bt < 2 { 7 } else { 0 },
            if f.arith { 7 } else { 0 },
            if f.escape { 7 } else { 0 },
            if f.glob { 7 } else { 0 },
            if f.param { 2 } else { 0 },
        ];
        match self.t.weighted(&wt) {
            1 => (vec![self.single()], Tail::None),
            2 => (vec![self.double()], Tail::None),
            3 => self.simple_param(),
            4 => (vec![self.param_subst()], Tail::None),
            5 => (vec![self.cmd_subst()], Tail::None),
            6 => (vec![self.backtick()], Tail::None),
            7 => (vec![self.arith()], Tail::None),
            8 => {
                let pool: &[char] = &[
                    'a', ' ', ';', '"', '\'', '(', '*', '#', '&', 'n', '7', '$', '`', '\\', '}', '|', '<', '\u{e9}', '\t',
                ];
                let mut ch = *self.t.pick(pool);
                if self.cfg.unicode && self.t.chance(10) {
                    ch = self.odd();
                }
                // a word that begins with an escaped `#` is no comment
                self.out.push('\\');
                self.out.push(ch);
                // in backticks the `$` itself is not escaped from the lexer
                let tail = if ch == '$' && self.bt > 0 { Tail::Dollar } else { Tail::None };
                (vec![N::leaf("E", ch.to_string())], tail)
            }
            9 => {
                let g = *self.t.pick(&["*", "?", "[", "]", "~", ":"]);
                if tail == Tail::Dollar && matches!(g, "*" | "?") {
                    self.put(":");
                    return (vec![N::leaf("G", ":")], Tail::None);
                }
                self.put(g);
                (vec![N::leaf("G", g)], Tail::None)
            }
            10 if tail != Tail::Dollar => {
                // a `$` that expands nothing
                self.put("$");
                let id = self.tagn();
                let s = match self.t.below(2) {
                    0 => format!("/d{}", id),
                    _ => format!("%d{}", id),
                };
                self.put(&s);
                (vec![lit(format!("${}", s))], Tail::None)
            }
            _ => {
                let s = self.bareword(w, first, tail);
                self.put(&s);
                (vec![lit(s)], Tail::None)
            }
        }
    }

    fn nested(&mut self) -> Option<N> {
        if self.nestw == 0 && self.wants(&[Dim::NestWord]) {
            self.nestw = self.many(Dim::NestWord);
        }
        if self.nestw == 0 {
            return None;
        }
        self.nestw -= 1;
        Some(match self.t.below(3) {
            0 => self.cmd_subst(),
            1 if self.quoted == 0 => self.double(),
            _ => self.param_subst(),
        })
    }

    fn single(&mut self) -> N {
        let id = self.tagn();
        let fill = self.filler(Dim::Single, false);
        let s = match self.t.below(9) {
            _ if !fill.is_empty() => format!("s{} {}", id, fill),
            0 => String::new(),
            1 => format!("s{} \"x\" # `", id),
            2 => format!("s{}\\", id),
            3 => format!("$s{} ${{x $(", id),
            4 if self.can_nl() && !self.pending() => format!("s{}\n y\n", id),
            5 => format!("; && | s{} done", id),
            6 if self.cfg.unicode => format!("\u{e9}\u{65e5}{}{}", id, self.odd()),
            7 => format!("(s{}", id),
            _ => format!("s{}", id),
        };
        let a = self.here();
        self.put("'");
        self.put(&s);
        self.put("'");
        let e = self.here();
        self.open(a + 1, e, a, OpenKind::Tok("'"));
        N::leaf("S", s)
    }

    fn double(&mut self) -> N {
        let a = self.here();
        self.put("\"");
        self.quoted += 1;
        self.pend.push(Vec::new());
        let mut k = self.t.weighted(&[8, 45, 30, 17]) + self.many(Dim::DqPieces);
        if self.nestw > 0 {
            k = k.max(1);
        }
        let mut out = Vec::new();
        let mut tail = Tail::None;
        for _ in 0..k {
            let (p, t) = self.quoted_piece(false, tail, false);
            tail = t;
            out.push(p);
        }
        let left = self.pend.pop().unwrap();
        assert!(left.is_empty());
        self.quoted -= 1;
        self.put("\"");
        let e = self.here();
        self.open(a + 1, e, a, OpenKind::Tok("\""));
        n("D", out)
    }

    /// A fragment inside double quotes or an expanding here-document.
    fn quoted_piece(&mut self, hd: bool, tail: Tail, line_start: bool) -> (N, Tail) {
        if let Some(p) = self.nested() {
            return (p, Tail::None);
        }
        let deep = self.small();
        let f = &self.cfg;
        let wt = [
            45,
            if f.param { 12 } else { 0 },
            if f.param && self.depth < 5 { 10 } else { 0 },
            if f.cmdsub && !deep { 9 } else { 0 },
            if f.backtick && !deep && self.bt < 2 { 7 } else { 0 },
            if f.arith { 6 } else { 0 },
            if f.escape { 10 } else { 0 },
        ];
        match self.t.weighted(&wt) {
            1 => {
                let (mut p, t) = self.simple_param();
                (p.pop().unwrap(), t)
            }
            2 => (self.param_subst(), Tail::None),
            3 => (self.cmd_subst(), Tail::None),
            4 => (self.backtick(), Tail::None),
            5 => (self.arith(), Tail::None),
            6 => {
                let pool: &[&str] = if hd { &["$", "`", "\\"] } else { &["$", "`", "\\", "\""] };
                let ch = *self.t.pick(pool);
                self.put("\\");
                self.put(ch);
                let tail = if ch == "$" && self.bt > 0 { Tail::Dollar } else { Tail::None };
                (N::leaf("E", ch), tail)
            }
            _ => {
                let id = self.tagn();
                let fill = self.filler(Dim::Quoted, false);
                let s = if tail != Tail::None {
                    format!(" q{}{}", id, fill)
                } else if !fill.is_empty() {
                    format!("q{} {}", id, fill)
                } else {
                    match self.t.below(11) {
                        0 => format!("q{}", id),
                        1 => format!(" q{} ; # it's", id),
                        2 if self.can_nl() && !self.pending() && !hd => format!("q{}\n", id),
                        3 => format!("q{} * ~ [a] ?", id),
                        4 => {
                            // a backslash that escapes nothing
                            let ch = *self.t.pick(&['a', '\'', '&', '|', ';', '<', '>', '(', ')', '{', '}', '*', '?', '~', '#', '!', ' ', '\t', '=', '\u{e9}', '[', '-', '1']);
                            format!("q{} \\{} ", id, ch)
                        }
                        5 if self.cfg.unicode => format!("{}\u{e9}\u{65e5} {}{}", self.odd(), id, self.odd()),
                        6 => format!("q{} && | done", id),
                        7 => format!("q{} ( x", id),
                        8 => format!("q{}) {{ }}", id),
                        9 if !line_start => format!("\tq{}\t\t=", id),
                        10 if hd => format!("q{} \" x", id),
                        _ => format!("w{}", id),
                    }
                };
                self.put(&s);
                (lit(s), Tail::None)
            }
        }
    }

    fn simple_param(&mut self) -> (Vec<N>, Tail) {
        match self.t.below(4) {
            0 | 1 => {
                let s = self.vname('p') + &self.filler(Dim::Name, true);
                self.put("$");
                self.put(&s);
                (vec![N::leaf("P", format!("v:{}", s))], Tail::Name)
            }
            2 => {
                let s = *self.t.pick(&["@", "*", "#", "?", "-", "!"]);
                self.put("$");
                self.put(s);
                (vec![N::leaf("P", s)], Tail::None)
            }
            _ => {
                if self.t.chance(20) {
                    self.put("$$");
                    return (vec![N::leaf("P", "$")], Tail::Dollar);
                }
                let d = self.t.draw(10);
                self.put(&format!("${}", d));
                (vec![N::leaf("P", format!("p:{}", d))], Tail::None)
            }
        }
    }

    /// (spelling inside braces, node text)
    fn param_name(&mut self, pound: bool) -> (String, String) {
        match self.t.weighted(&[60, 25, 15]) {
            0 => {
                let s = self.vname('b') + &self.filler(Dim::Name, true);
                (s.clone(), format!("v:{}", s))
            }
            1 => {
                let s = *self.t.pick(&["@", "*", "?", "-", "$", "!", "#"]);
                let s = if s == "#" && !pound { "@" } else { s };
                (s.to_string(), s.to_string())
            }
            _ => {
                let d = *self.t.pick(&["0", "1", "9", "10", "12", "345", "007", "255", "256", "65536", "4294967295", "00"]);
                (d.to_string(), format!("p:{}", d.parse::<u32>().unwrap()))
            }
        }
    }

    fn param_subst(&mut self) -> N {
        self.fuel -= 1;
        let a = self.here();
        self.put("${");
        let node;
        let how = self.t.weighted(&[25, 15, 40, 20]);
        match if self.nestw > 0 || self.wants(&[Dim::SubstPieces]) { how.max(2) } else { how } {
            0 => {
                let (s, p) = self.param_name(true);
                self.put(&s);
                node = N::leaf("P", p);
            }
            1 => {
                let (s, p) = self.param_name(true);
                self.put("#");
                self.put(&s);
                node = N::leaf("len", p);
            }
            2 => {
                let (s, p) = self.param_name(true);
                self.put(&s);
                let colon = self.t.chance(50);
                if colon {
                    self.put(":");
                }
                let i = self.t.below(4);
                self.put(["-", "=", "?", "+"][i]);
                let word = if p == "#" && !colon { Some(self.subst_word(false)) } else { self.opt_subst_word() };
                let t: &'static str = ["def", "asg", "err", "alt"][i];
                node = N::new(t, format!("{}{}", if colon { ":" } else { "" }, p), word.into_iter().collect());
            }
            _ => {
                let (s, p) = self.param_name(false);
                self.put(&s);
                let i = self.t.below(4);
                self.put(["%", "%%", "#", "##"][i]);
                let word = if self.t.chance(20) && self.nestw == 0 { None } else { Some(self.subst_word(true)) };
                let t: &'static str = ["ss", "ls", "sp", "lp"][i];
                node = N::new(t, p, word.into_iter().collect());
            }
        }
        let e = self.here();
        self.put("}");
        self.open(a + 2, e + 1, a + 1, OpenKind::Tok("{"));
        node
    }

    fn opt_subst_word(&mut self) -> Option<N> {
        if self.t.chance(15) && self.nestw == 0 {
            None
        } else {
            Some(self.subst_word(false))
        }
    }

    fn subst_word(&mut self, trim: bool) -> N {
        self.depth += 1;
        let mut k = Vec::new();
        // What is behind a here-document operator is searched for the end of
        // its line without regard to the constructs begun before it.
        let hd = self.hd;
        let cnt = 1 + self.t.weighted(&[65, 25, 10]) + self.many(Dim::SubstPieces) + usize::from(trim && self.nestw > 0);
        let mut tail = Tail::None;
        for i in 0..cnt {
            if i > 0 && tail == Tail::None && self.t.chance(35) {
                let s = match self.t.below(8) {
                    0 => " ",
                    1 => " ;",
                    2 => " | ",
                    3 if hd == self.hd => " # ",
                    4 if self.can_nl() && !self.pending() => "\n",
                    5 => " && ",
                    6 if hd == self.hd => " ( ",
                    7 if hd == self.hd => *self.t.pick(&[" ) ", ";;", " < ", ">", " << ", "<<-", ">>", ">& ", " <&", "<>", ">|", "||", "&", "|", "(", ")", "()", " #("]),
                    _ => "  ",
                };
                self.put(s);
                k.push(lit(s));
            }
            if i == 0 && trim {
                let id = self.tagn();
                let s = format!("t{}", id);
                self.put(&s);
                k.push(lit(s));
                continue;
            }
            let (p, t) = self.piece(W { cmd: false, sub: true, pat: false }, i == 0, tail);
            tail = t;
            k.extend(p);
        }
        self.depth -= 1;
        n("w", k)
    }

    fn cmd_subst(&mut self) -> N {
        self.fuel -= 2;
        self.depth += 1;
        let a = self.here();
        self.put("$(");
        let hold = self.pending();
        if hold {
            self.nonl += 1;
        }
        let frame = self.quoted > 0;
        if frame {
            self.pend.push(Vec::new());
        }
        let q = std::mem::replace(&mut self.quoted, 0);
        let at = self.here();
        let g = self.group(Close::Free, 0, frame);
        self.quoted = q;
        if self.out.get(at) == Some(&'(') {
            // `$((` would be arithmetic
            self.insert(at, ' ');
        }
        if frame {
            let left = self.pend.pop().unwrap();
            assert!(left.is_empty());
        }
        if hold {
            self.nonl -= 1;
        }
        self.put(")");
        let e = self.here();
        self.open(a + 2, e, a + 1, OpenKind::Tok("("));
        self.depth -= 1;
        n("cs", vec![g])
    }

    /// Inserts a character written earlier than some of the metadata.
    fn insert(&mut self, at: usize, ch: char) {
        self.out.insert(at, ch);
        let m = std::mem::take(&mut self.meta);
        // Offsets before `at` stay; everything at or after moves by one.
        self.meta = m.remap(&|x| if x >= at { x + 1 } else { x });
    }

    fn backtick(&mut self) -> N {
        self.fuel -= 2;
        self.depth += 1;
        self.bt += 1;
        let q = std::mem::replace(&mut self.quoted, 0);
        let hold = self.pending();
        if hold {
            self.nonl += 1;
        }
        let (g, buf, meta) = self.sub(|g| g.group(Close::Free, 0, true));
        if hold {
            self.nonl -= 1;
        }
        self.quoted = q;
        self.bt -= 1;
        self.depth -= 1;
        let a = self.here();
        self.out.push('`');
        let base = self.here();
        let mut map = Vec::with_capacity(buf.len() + 1);
        let mut enc = Vec::new();
        let mut i = 0;
        let put_special = |enc: &mut Vec<char>, map: &mut Vec<usize>, ch: char| {
            if ch == '`' || ch == '\\' {
                enc.push('\\');
            }
            map.push(base + enc.len());
            enc.push(ch);
        };
        while i < buf.len() {
            let ch = buf[i];
            if ch == '\\' && i + 1 < buf.len() {
                let x = buf[i + 1];
                if x == '\\' || x == '$' || x == '`' {
                    put_special(&mut enc, &mut map, '\\');
                    put_special(&mut enc, &mut map, x);
                } else {
                    map.push(base + enc.len());
                    enc.push('\\');
                    map.push(base + enc.len());
                    enc.push(x);
                }
                i += 2;
                continue;
            }
            if ch == '\\' {
                map.push(base + enc.len());
                enc.push('\\');
            } else {
                put_special(&mut enc, &mut map, ch);
            }
            i += 1;
        }
        map.push(base + enc.len());
        self.out.extend(enc);
        let m = meta.remap(&|x| map[x]);
        self.meta.extend(m);
        self.out.push('`');
        let e = self.here();
        self.open(a + 1, e, a, OpenKind::Tok("`"));
        n("bt", vec![g])
    }

    // ---- arithmetic ------------------------------------------------------

    fn arith(&mut self) -> N {
        self.fuel -= 1;
        let a = self.here();
        self.put("$((");
        let body = if self.t.chance(6) {
            None
        } else {
            self.sp(false);
            Some(self.arith_body())
        };
        self.sp(false);
        self.put("))");
        let e = self.here();
        self.open(a + 2, e, a + 1, OpenKind::Tok("("));
        self.open(a + 3, e, a + 2, OpenKind::Tok("("));
        n("ar", body.into_iter().collect())
    }

    fn arith_body(&mut self) -> N {
        let k = self.many(Dim::ArithChain);
        let (s, n) = if k > 0 { self.arith_chain(k) } else { self.arith_expr(0, 2) };
        let s = self.respace(s);
        let from = self.here();
        self.put(&s);
        let mut stack = Vec::new();
        for i in from..self.here() {
            match self.out[i] {
                '(' => stack.push(i),
                ')' => {
                    let p = stack.pop().unwrap();
                    self.open(p + 1, i + 1, p, OpenKind::Tok("("));
                }
                _ => {}
            }
        }
        n
    }

    /// Leaves out or replaces blanks of an expression wherever that cannot
    /// change its meaning.
    fn respace(&mut self, s: String) -> String {
        let mode = self.t.weighted(&[50, 25, 25]);
        if mode == 0 {
            return s;
        }
        let c: Vec<char> = s.chars().collect();
        let mut r = String::new();
        for (i, &ch) in c.iter().enumerate() {
            if ch != ' ' || i == 0 || i + 1 == c.len() {
                r.push(ch);
                continue;
            }
            let (a, b) = (c[i - 1], c[i + 1]);
            let needed = (a == b && (a == '+' || a == '-')) || (a.is_alphanumeric() && b.is_alphanumeric());
            let k = if mode == 1 { 0 } else { self.t.weighted(&[50, 30, 8, 6, 6]) };
            match k {
                0 if !needed => {}
                2 => r += "  ",
                3 => r.push('\t'),
                4 if self.cfg.cont && "+-*/%<>=&|^?:,!~".contains(a) => r += " \\\n",
                4 if self.cfg.unicode => r += &self.odd_blanks(true),
                _ => r.push(' '),
            }
        }
        r
    }

    /// A long or deep expression.
    fn arith_chain(&mut self, k: usize) -> (String, N) {
        let kind = self.t.below(7);
        let (mut s, mut x) = self.arith_expr(15, 0);
        match kind {
            0 => {
                let op = *self.t.pick(&["+", "-", "*", "/", "%", "<<", "==", "!=", "<", ">=", "&", "^", "|", "&&", "||"]);
                for _ in 0..k {
                    let (rs, r) = self.arith_expr(15, 0);
                    s = format!("{} {} {}", s, op, rs);
                    x = N::new("A", op, vec![x, r]);
                }
            }
            1 => {
                let mut all = vec![x];
                for _ in 0..k {
                    let (rs, r) = self.arith_expr(1, 1);
                    s = format!("{}, {}", s, rs);
                    all.push(r);
                }
                x = N::new("A", "seq", all);
            }
            2 => {
                for _ in 0..k {
                    let (ls, l) = self.arith_expr(15, 0);
                    s = format!("{} ** {}", ls, s);
                    x = N::new("A", "**", vec![l, x]);
                }
            }
            3 => {
                for _ in 0..k {
                    let (vs, v) = self.arith_var();
                    s = format!("{} = {}", vs, s);
                    x = N::new("A", format!("=:{}", v), vec![x]);
                }
            }
            4 => {
                for _ in 0..k {
                    let (gs, g) = self.arith_expr(15, 0);
                    let (bs, b) = self.arith_expr(15, 0);
                    s = format!("{} ? {} : {}", gs, bs, s);
                    x = N::new("A", "?:", vec![g, b, x]);
                }
            }
            5 => s = format!("{}{}{}", "(".repeat(k), s, ")".repeat(k)),
            _ => {
                let op = *self.t.pick(&["!", "~", "+", "-"]);
                for _ in 0..k {
                    s = format!("{} {}", op, s);
                    x = N::new("A", format!("u{}", op), vec![x]);
                }
            }
        }
        (s, x)
    }

    /// Text and tree of an expression that may stand where precedence `lv`
    /// is required.
    fn arith_expr(&mut self, lv: u32, depth: u32) -> (String, N) {
        let (s, n, p) = self.arith_raw(depth);
        if p < lv || self.t.chance(8) {
            (format!("({})", s), n)
        } else {
            (s, n)
        }
    }

    fn arith_var(&mut self) -> (String, String) {
        let id = self.tagn();
        let v = self.vname('x') + &self.filler(Dim::Name, true);
        (if self.t.chance(25) { format!("${}", v) } else { v.clone() }, v)
    }

    fn arith_raw(&mut self, depth: u32) -> (String, N, u32) {
        // precedence: 0 sequence, 1 assignment, 2 ternary, 3.. binary, 13 pow,
        // 14 unary, 15 atom
        const BIN: &[(&str, u32)] = &[
            ("||", 3),
            ("&&", 4),
            ("|", 5),
            ("^", 6),
            ("&", 7),
            ("==", 8),
            ("!=", 8),
            ("<", 9),
            ("<=", 9),
            (">", 9),
            (">=", 9),
            ("<<", 10),
            (">>", 10),
            ("+", 11),
            ("-", 11),
            ("*", 12),
            ("/", 12),
            ("%", 12),
        ];
        let leaf = depth == 0;
        let k = if leaf { self.t.weighted(&[50, 40, 10]) } else { self.t.weighted(&[20, 20, 6, 34, 5, 6, 5, 4]) };
        match k {
            0 => {
                let (s, v) = self.arith_var();
                (s, N::leaf("A", format!("var:{}", v)), 15)
            }
            1 => {
                let (s, v): (&str, isize) = *self.t.pick(&[
                    ("1", 1),
                    ("42", 42),
                    ("0", 0),
                    ("017", 15),
                    ("0x1F", 31),
                    ("0Xa", 10),
                    ("100000", 100_000),
                    ("2147483648", 2_147_483_648),
                    ("9223372036854775807", isize::MAX),
                    ("0x7fffffffffffffff", isize::MAX),
                    ("0777777777777777777777", isize::MAX),
                    ("0X00abCDEF", 0xabcdef),
                    ("00", 0),
                    ("0x", 0),
                    ("9", 9),
                ]);
                (s.to_string(), N::leaf("A", format!("lit:{}", v)), 15)
            }
            2 => {
                let (_, v) = self.arith_var();
                let i = self.t.below(4);
                let s = match i {
                    0 => format!("{}++", v),
                    1 => format!("{}--", v),
                    2 => format!("++{}", v),
                    _ => format!("--{}", v),
                };
                let t = ["post++", "post--", "pre++", "pre--"][i];
                (s, N::leaf("A", format!("{}:{}", t, v)), 14)
            }
            3 => {
                let (op, p) = *self.t.pick(BIN);
                let (ls, l) = self.arith_expr(p, depth - 1);
                let (rs, r) = self.arith_expr(p + 1, depth - 1);
                (format!("{} {} {}", ls, op, rs), N::new("A", op, vec![l, r]), p)
            }
            4 => {
                let (ls, l) = self.arith_expr(14, depth - 1);
                let (rs, r) = self.arith_expr(13, depth - 1);
                (format!("{} ** {}", ls, rs), N::new("A", "**", vec![l, r]), 13)
            }
            5 => {
                let op = *self.t.pick(&["!", "~", "+", "-"]);
                let (s, x) = self.arith_expr(14, depth - 1);
                (format!("{} {}", op, s), N::new("A", format!("u{}", op), vec![x]), 14)
            }
            6 => {
                let (gs, g) = self.arith_expr(3, depth - 1);
                let mid = self.t.weighted(&[80, 12, 8]) as u32;
                let (bs, b) = self.arith_expr(2 - mid, depth - 1);
                let (es, e) = self.arith_expr(2, depth - 1);
                (format!("{} ? {} : {}", gs, bs, es), N::new("A", "?:", vec![g, b, e]), 2)
            }
            _ => {
                if self.t.chance(40) {
                    let (ls, l) = self.arith_expr(1, depth - 1);
                    let (rs, r) = self.arith_expr(1, depth - 1);
                    return (format!("{}, {}", ls, rs), N::new("A", "seq", vec![l, r]), 0);
                }
                let (vs, v) = self.arith_var();
                let op = *self.t.pick(&["", "*", "/", "%", "+", "-", "<<", ">>", "&", "|", "^"]);
                let (rs, r) = self.arith_expr(1, depth - 1);
                let val = if op.is_empty() {
                    r
                } else {
                    N::new("A", op, vec![N::leaf("A", format!("var:{}", v)), r])
                };
                (format!("{} {}= {}", vs, op, rs), N::new("A", format!("=:{}", v), vec![val]), 1)
            }
        }
    }

    // ---- compound commands -------------------------------------------------

    fn kw(&mut self, s: &'static str) -> usize {
        let a = self.here();
        self.put(s);
        a
    }

    /// After a keyword: blank or newline before the group it introduces.
    fn io(&mut self) -> N {
        let mut k = Vec::new();
        if self.no_io != self.depth && (self.cfg.redirect || self.cfg.heavy_hd) {
            let m = self.t.weighted(&[75, 18, 7]) + self.many(Dim::Io);
            for _ in 0..m {
                self.blank(true);
                k.push(self.redirect());
            }
        }
        n("io", k)
    }

    /// `hdr_from`: start of a function header that stays open up to the
    /// point where the body itself counts as open.
    fn compound(&mut self, hdr_from: Option<usize>) -> N {
        self.compound_of(hdr_from, None)
    }

    fn compound_of(&mut self, hdr_from: Option<usize>, which: Option<usize>) -> N {
        self.fuel -= 2;
        self.depth += 1;
        let a = self.here();
        let k = which.unwrap_or_else(|| self.t.weighted(&[22, 20, 12, 8, 18, 14, 14]));
        let kwlen = [1, 1, 5, 5, 2, 3, 4][k];
        if let Some(h) = hdr_from {
            self.open(h, a + kwlen, h, OpenKind::Dangling);
        }
        let r = match k {
            0 => {
                self.put("{");
                self.after_kw();
                let g = self.group(Close::Sep, 1, false);
                let e = self.here();
                self.put("}");
                self.open(a + 1, e + 1, a, OpenKind::Tok("{"));
                let io = self.io();
                n("brace", vec![g, io])
            }
            1 => {
                let g = self.paren_group();
                let io = self.io();
                n("subshell", vec![g, io])
            }
            2 | 3 => {
                let kw = if k == 2 { "while" } else { "until" };
                self.kw(kw);
                self.after_kw();
                let guard = self.group(Close::Sep, 1, false);
                let body = self.do_group(a, kw);
                let io = self.io();
                n(if k == 2 { "while" } else { "until" }, vec![guard, body, io])
            }
            4 => self.if_cmd(a),
            5 => self.for_cmd(a),
            _ => self.case_cmd(a),
        };
        self.depth -= 1;
        r
    }

    fn paren_group(&mut self) -> N {
        let a = self.here();
        self.put("(");
        let hold = self.pending();
        if hold {
            self.nonl += 1;
        }
        let at = self.here();
        let g = self.group(Close::Free, 1, false);
        if self.out.get(at) == Some(&'(') {
            self.insert(at, ' ');
        }
        if hold {
            self.nonl -= 1;
        }
        self.put(")");
        let e = self.here();
        self.open(a + 1, e, a, OpenKind::Tok("("));
        g
    }

    fn after_kw(&mut self) {
        if self.can_nl() && self.t.chance(40) {
            self.glue = true;
        } else {
            self.sp(true);
        }
    }

    /// `do ... done`; the enclosing loop is open from after its keyword.
    fn do_group(&mut self, a: usize, kw: &'static str) -> N {
        let d = self.kw("do");
        self.after_kw();
        let body = self.group(Close::Sep, 1, false);
        self.kw("done");
        let e = self.here();
        if !kw.is_empty() {
            self.open(a + kw.len(), e, a, OpenKind::Kw(kw));
        }
        self.open(d + 2, e, d, OpenKind::Kw("do"));
        body
    }

    fn if_cmd(&mut self, a: usize) -> N {
        let mut k = Vec::new();
        self.kw("if");
        let cnt = 1 + self.t.weighted(&[70, 22, 8]) + self.many(Dim::Elifs);
        for i in 0..cnt {
            if i > 0 {
                self.kw("elif");
            }
            self.after_kw();
            let guard = self.group(Close::Sep, 1, false);
            self.kw("then");
            self.after_kw();
            let body = self.group(Close::Sep, 1, false);
            k.push(n("gb", vec![guard, body]));
        }
        if self.t.chance(35) {
            self.kw("else");
            self.after_kw();
            let g = self.group(Close::Sep, 1, false);
            k.push(n("else", vec![g]));
        }
        self.kw("fi");
        let e = self.here();
        self.open(a + 2, e, a, OpenKind::Kw("if"));
        k.push(self.io());
        n("if", k)
    }

    fn for_cmd(&mut self, a: usize) -> N {
        self.kw("for");
        self.sp(true);
        let var = self.vname('i') + &self.filler(Dim::Name, true);
        self.put(&var);
        let multi = self.can_nl();
        // optional comment/newline, then more of them
        let mut vc = c(vec![]);
        let mut post = c(vec![]);
        if multi && self.t.chance(25) {
            let x = self.newline();
            vc = c(vec![x]);
            post = self.linebreak(35);
        }
        let mut k;
        match self.t.weighted(&[70, 15, 15]) {
            0 => {
                self.blank(true);
                self.put("in");
                let mut words = vec![post];
                let m = self.t.weighted(&[15, 35, 30, 20]) + self.many(Dim::ForWords);
                for _ in 0..m {
                    self.blank(true);
                    words.push(self.word(W { cmd: false, sub: false, pat: false }));
                }
                let semi = !self.can_nl() || self.t.chance(50);
                if semi {
                    self.blank(false);
                    self.put(";");
                }
                let mut wc = c(vec![]);
                let mut pre = c(vec![]);
                if !semi || (self.can_nl() && self.t.chance(40)) {
                    let x = self.newline();
                    wc = c(vec![x]);
                    pre = self.linebreak(30);
                }
                words.push(wc);
                self.blank(false);
                k = vec![vc, n("in", words), pre];
            }
            1 => {
                self.blank(false);
                self.put(";");
                let lb = self.linebreak(40);
                let mut all = post.k.clone();
                all.extend(lb.k);
                k = vec![vc, c(all)];
                self.blank(false);
            }
            _ => {
                self.blank(true);
                k = vec![vc, post];
            }
        }
        k.push(self.do_group(a, "for"));
        k.push(self.io());
        N::new("for", var, k)
    }

    fn case_cmd(&mut self, a: usize) -> N {
        self.kw("case");
        self.blank(true);
        let w = self.word(W { cmd: false, sub: false, pat: false });
        let lb = if self.can_nl() && self.t.chance(20) { self.linebreak(60) } else { c(vec![]) };
        self.blank(true);
        self.put("in");
        let mut inc = c(vec![]);
        if self.can_nl() && self.t.chance(50) {
            let x = self.newline();
            inc = c(vec![x]);
        }
        let mut k = vec![w, lb, inc];
        let arms = self.t.weighted(&[10, 45, 30, 15]) + self.many(Dim::Arms);
        let mut post = c(vec![]);
        // a newline has just been taken, so further ones are separate
        let mut fresh = !k[2].k.is_empty();
        for i in 0..arms {
            let pre = if fresh && self.can_nl() && self.t.chance(25) { self.linebreak(60) } else { c(vec![]) };
            self.blank(true);
            let mut paren = None;
            if self.pending() || self.t.chance(35) {
                paren = Some(self.here());
                self.put("(");
                self.blank(false);
            }
            let hold = self.pending();
            if hold {
                self.nonl += 1;
            }
            self.no_hd += 1;
            let mut pats = Vec::new();
            let m = 1 + self.t.weighted(&[70, 20, 10]) + self.many(Dim::Pats);
            for j in 0..m {
                if j > 0 {
                    self.blank(false);
                    self.put("|");
                    self.blank(false);
                }
                pats.push(self.word(W { cmd: false, sub: false, pat: true }));
            }
            self.no_hd -= 1;
            if hold {
                self.nonl -= 1;
            }
            self.blank(false);
            self.put(")");
            let e = self.here();
            if let Some(p) = paren {
                self.open(p + 1, e, p, OpenKind::Tok("("));
            }
            let mut pc = c(vec![]);
            if self.can_nl() && self.t.chance(30) {
                let x = self.newline();
                pc = c(vec![x]);
            }
            self.no_pre = pc.k.is_empty();
            self.sp(true);
            let last = i + 1 == arms;
            let bare = last && self.t.chance(25);
            let (g, ac);
            if bare {
                // the last arm may omit `;;`
                g = self.group(Close::Sep, 0, false);
                ac = c(vec![]);
                fresh = false;
                self.sp(true);
            } else {
                g = self.group(Close::Free, 0, false);
                self.sp(false);
                if self.out.last() == Some(&';') {
                    self.put(" ");
                }
                self.put(";;");
                if self.can_nl() && self.t.chance(45) {
                    let x = self.newline();
                    ac = c(vec![x]);
                } else {
                    ac = c(vec![]);
                }
                fresh = !ac.k.is_empty();
            }
            k.push(n("arm", vec![pre, n("pats", pats), pc, g, ac]));
        }
        if fresh && self.can_nl() && self.t.chance(20) {
            post = self.linebreak(50);
        }
        self.blank(true);
        self.put("esac");
        let e = self.here();
        self.open(a + 4, e, a, OpenKind::Kw("case"));
        k.push(post);
        k.push(self.io());
        n("case", k)
    }

    fn function(&mut self) -> N {
        self.fuel -= 1;
        let kwd = self.t.chance(40);
        let mut name = self.vname('f') + &self.filler(Dim::Name, true);
        if !kwd && RESERVED.contains(&&name[..]) {
            name.push('_');
        }
        if !kwd {
            self.not_reserved(&name);
        }
        let mut from = None;
        if kwd {
            self.kw("function");
            from = Some(self.here());
            self.sp(true);
        }
        self.put(&name);
        if !kwd || self.t.chance(50) {
            self.sp(false);
            let p = self.here();
            self.put("(");
            if from.is_none() {
                from = Some(self.here());
            }
            self.sp(false);
            self.put(")");
            let e = self.here();
            self.open(p + 1, e, p, OpenKind::Tok("("));
            let lb = self.linebreak(15);
            self.sp(false);
            let body = self.compound(from);
            return N::new("fn", name, vec![lb, body]);
        }
        // `function name` directly followed by its body
        let lb = if self.can_nl() && self.t.chance(30) { self.linebreak(60) } else { c(vec![]) };
        self.sp(true);
        let mark = self.here();
        let body = self.compound(from);
        if self.out[mark] == '(' && lb.k.is_empty() && self.t.chance(40) {
            // `function f (..)`: `()` before the body is optional
            self.insert(mark, ' ');
            self.insert(mark, ')');
            self.insert(mark, '(');
            self.open(mark + 1, mark + 2, mark, OpenKind::Tok("("));
        }
        N::new("fn", name, vec![lb, body])
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Tail {
    None,
    /// A name that the next character could extend.
    Name,
    /// `$$`: the lexer would pair the second `$` with what follows.
    Dollar,
}

fn digits(w: &N) -> bool {
    let mut s = String::new();
    for p in &w.k {
        if p.t != "L" {
            return false;
        }
        s.push_str(&p.s);
    }
    s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<u16>().is_ok()
}
