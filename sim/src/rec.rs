//! The simulated builder: records every call, tracks every value it hands
//! out, and fails or panics where the schedule says so.

use crate::tape::{hash_str, mix2};
use crate::tree::N;
use conch_parser::ast::builder::*;
use conch_parser::ast::{AndOr, Arithmetic, Parameter, RedirectOrCmdWord, RedirectOrEnvVar};
use std::fmt;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HState {
    Live,
    Consumed,
    Delivered,
    Released,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Err,
    Panic,
}

/// Payload of an injected panic.
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct SimPanic(pub String);

/// The builder's error value: unique, so that it can be recognised.
pub struct BErr {
    pub id: u64,
    st: Shared,
}
impl fmt::Debug for BErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "BErr({})", self.id)
    }
}
impl fmt::Display for BErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "builder error {}", self.id)
    }
}
impl Drop for BErr {
    fn drop(&mut self) {
        lock(&self.st).errs_dropped += 1;
    }
}

pub type Hook = Arc<dyn Fn(&str) + Send + Sync>;

#[derive(Default)]
pub struct RecSt {
    pub states: Vec<HState>,
    live: Vec<u32>,
    pub calls: u64,
    /// Cumulative hash after each call.
    pub hashes: Vec<u64>,
    pub names: Vec<&'static str>,
    pub fault: Option<(u64, Fault)>,
    pub hook: Option<Hook>,
    pub builder_drops: u32,
    pub errs_made: u32,
    pub errs_dropped: u32,
    pub faulted: bool,
    /// Calls made after a fault fired.
    pub after_fault: u32,
    pub released: u32,
    pub violations: Vec<String>,
    pub comments: Vec<N>,
    /// Handles dropped that were not in state Live.
    pub tag: String,
}
pub type Shared = Arc<Mutex<RecSt>>;

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl RecSt {
    pub fn live_count(&self) -> usize {
        self.states.iter().filter(|s| **s == HState::Live).count()
    }
    pub fn hash(&self) -> u64 {
        self.hashes.last().copied().unwrap_or(0)
    }
    fn violate(&mut self, s: String) {
        if self.violations.len() < 5 {
            self.violations.push(s);
        }
    }
}

/// A value handed out by the builder.
pub struct H {
    id: u32,
    n: Option<N>,
    st: Shared,
}
impl H {
    /// Taken over by the caller.
    pub fn deliver(mut self) -> N {
        let n = self.n.take().unwrap();
        let mut s = lock(&self.st);
        let id = self.id;
        s.states[id as usize] = HState::Delivered;
        if s.live.last() == Some(&id) {
            s.live.pop();
        } else {
            s.live.retain(|x| *x != id);
            s.violate(format!("value #{} delivered while younger values are still held", id));
        }
        if !s.live.is_empty() {
            let l = s.live.clone();
            s.violate(format!("values {:?} left behind when a command was delivered", l));
        }
        drop(s);
        n
    }
    pub fn peek(&self) -> &N {
        self.n.as_ref().unwrap()
    }
    pub fn take(mut self, used: &mut Vec<u32>) -> N {
        used.push(self.id);
        self.n.take().unwrap()
    }
}
impl Drop for H {
    fn drop(&mut self) {
        if self.n.is_none() {
            return;
        }
        let mut s = lock(&self.st);
        s.states[self.id as usize] = HState::Released;
        s.released += 1;
        let id = self.id;
        s.live.retain(|x| *x != id);
    }
}

pub struct Rec {
    pub st: Shared,
}
impl Rec {
    pub fn new() -> (Rec, Shared) {
        let st: Shared = Arc::default();
        (Rec { st: st.clone() }, st)
    }
}
impl Drop for Rec {
    fn drop(&mut self) {
        lock(&self.st).builder_drops += 1;
    }
}

type R = Result<H, BErr>;

impl Rec {
    /// Before the arguments are looked at: scheduling point, then fault.
    fn enter(&self, name: &'static str) -> Result<(), BErr> {
        let hook = lock(&self.st).hook.clone();
        if let Some(h) = hook {
            h(name);
        }
        let mut s = lock(&self.st);
        let k = s.calls;
        s.calls += 1;
        s.names.push(name);
        if s.faulted {
            s.after_fault += 1;
        }
        match s.fault {
            Some((at, f)) if at == k => {
                s.faulted = true;
                let h = s.hash();
                s.hashes.push(mix2(h, 0xDEAD));
                match f {
                    Fault::Err => {
                        s.errs_made += 1;
                        drop(s);
                        Err(BErr { id: k, st: self.st.clone() })
                    }
                    Fault::Panic => {
                        drop(s);
                        std::panic::panic_any(SimPanic(format!("builder call {}", k)))
                    }
                }
            }
            _ => Ok(()),
        }
    }
    fn make(&self, name: &str, used: Vec<u32>, n: N) -> R {
        let mut s = lock(&self.st);
        let h = s.hash();
        let mut x = mix2(mix2(h, hash_str(name)), n.h);
        for u in &used {
            x = mix2(x, *u as u64);
        }
        s.hashes.push(x);
        // bottom-up, in source order: exactly the youngest live values, oldest
        // first
        let m = s.live.len();
        if used.len() > m || s.live[m - used.len()..] != used[..] {
            let l = s.live.clone();
            s.violate(format!("call {} took values {:?} but the values in hand are {:?}", name, used, l));
        }
        for u in &used {
            if s.states[*u as usize] != HState::Live {
                s.violate(format!("value #{} used twice", u));
            }
            s.states[*u as usize] = HState::Consumed;
        }
        s.live.retain(|x| !used.contains(x));
        let id = s.states.len() as u32;
        s.states.push(HState::Live);
        s.live.push(id);
        Ok(H { id, n: Some(n), st: self.st.clone() })
    }
}

pub fn cm(v: Vec<Newline>) -> N {
    N::new("C", "", v.into_iter().map(one).collect())
}
fn one(x: Newline) -> N {
    match x.0 {
        Some(s) => N::leaf("#", s),
        None => N::leaf("nl", ""),
    }
}
fn opt(x: Option<Newline>) -> N {
    N::new("C", "", x.into_iter().map(one).collect())
}
fn sep(s: SeparatorKind) -> &'static str {
    match s {
        SeparatorKind::Semi => ";",
        SeparatorKind::Amp => "&",
        SeparatorKind::Newline => "nl",
        SeparatorKind::Other => "other",
    }
}
/// Values returned to the caller outside a top-level command.
pub fn settle(st: &Shared, u: &[u32]) {
    let mut s = lock(st);
    for i in u {
        s.states[*i as usize] = HState::Delivered;
    }
    s.live.retain(|x| !u.contains(x));
}
pub fn grp(g: CommandGroup<H>, u: &mut Vec<u32>) -> N {
    let mut k: Vec<N> = g.commands.into_iter().map(|x| x.take(u)).collect();
    k.push(cm(g.trailing_comments));
    N::new("grp", "", k)
}
pub fn io(v: Vec<H>, u: &mut Vec<u32>) -> N {
    N::new("io", "", v.into_iter().map(|x| x.take(u)).collect())
}

pub fn param(p: &Parameter<String>) -> String {
    match p {
        Parameter::At => "@".into(),
        Parameter::Star => "*".into(),
        Parameter::Pound => "#".into(),
        Parameter::Question => "?".into(),
        Parameter::Dash => "-".into(),
        Parameter::Dollar => "$".into(),
        Parameter::Bang => "!".into(),
        Parameter::Positional(n) => format!("p:{}", n),
        Parameter::Var(v) => format!("v:{}", v),
    }
}

pub fn arith<T: AsRef<str>>(a: &Arithmetic<T>) -> N {
    use Arithmetic::*;
    let b = |op: &str, l: &Arithmetic<T>, r: &Arithmetic<T>| N::new("A", op, vec![arith(l), arith(r)]);
    let l = |t: &str, v: &T| N::leaf("A", format!("{}:{}", t, v.as_ref()));
    let un = |t: &str, x: &Arithmetic<T>| N::new("A", t, vec![arith(x)]);
    match a {
        Var(v) => l("var", v),
        Literal(i) => N::leaf("A", format!("lit:{}", i)),
        Pow(x, y) => b("**", x, y),
        PostIncr(v) => l("post++", v),
        PostDecr(v) => l("post--", v),
        PreIncr(v) => l("pre++", v),
        PreDecr(v) => l("pre--", v),
        UnaryPlus(x) => un("u+", x),
        UnaryMinus(x) => un("u-", x),
        LogicalNot(x) => un("u!", x),
        BitwiseNot(x) => un("u~", x),
        Mult(x, y) => b("*", x, y),
        Div(x, y) => b("/", x, y),
        Modulo(x, y) => b("%", x, y),
        Add(x, y) => b("+", x, y),
        Sub(x, y) => b("-", x, y),
        ShiftLeft(x, y) => b("<<", x, y),
        ShiftRight(x, y) => b(">>", x, y),
        Less(x, y) => b("<", x, y),
        LessEq(x, y) => b("<=", x, y),
        Great(x, y) => b(">", x, y),
        GreatEq(x, y) => b(">=", x, y),
        Eq(x, y) => b("==", x, y),
        NotEq(x, y) => b("!=", x, y),
        BitwiseAnd(x, y) => b("&", x, y),
        BitwiseXor(x, y) => b("^", x, y),
        BitwiseOr(x, y) => b("|", x, y),
        LogicalAnd(x, y) => b("&&", x, y),
        LogicalOr(x, y) => b("||", x, y),
        Ternary(g, x, y) => N::new("A", "?:", vec![arith(g), arith(x), arith(y)]),
        Assign(v, x) => N::new("A", format!("=:{}", v.as_ref()), vec![arith(x)]),
        Sequence(v) => N::new("A", "seq", v.iter().map(arith).collect()),
    }
}

fn complex(w: ComplexWordKind<H>, u: &mut Vec<u32>) -> N {
    match w {
        ComplexWordKind::Single(w) => N::new("w", "1", vec![wordk(w, u)]),
        ComplexWordKind::Concat(v) => {
            let k = v.into_iter().map(|x| wordk(x, u)).collect();
            N::new("w", "n", k)
        }
    }
}
fn wordk(w: WordKind<H>, u: &mut Vec<u32>) -> N {
    match w {
        WordKind::Simple(s) => simple(s, u),
        WordKind::DoubleQuoted(v) => N::new("D", "", v.into_iter().map(|x| simple(x, u)).collect()),
        WordKind::SingleQuoted(s) => N::leaf("S", s),
    }
}
fn simple(s: SimpleWordKind<H>, u: &mut Vec<u32>) -> N {
    use SimpleWordKind::*;
    match s {
        Literal(s) => N::leaf("L", s),
        Param(p) => N::leaf("P", param(&p)),
        Subst(b) => subst(*b, u),
        CommandSubst(g) => N::new("bt", "", vec![grp(g, u)]),
        Escaped(s) => N::leaf("E", s),
        Star => N::leaf("G", "*"),
        Question => N::leaf("G", "?"),
        SquareOpen => N::leaf("G", "["),
        SquareClose => N::leaf("G", "]"),
        Tilde => N::leaf("G", "~"),
        Colon => N::leaf("G", ":"),
    }
}
fn subst(s: ParameterSubstitutionKind<ComplexWordKind<H>, H>, u: &mut Vec<u32>) -> N {
    use ParameterSubstitutionKind::*;
    let mut f = |t: &'static str, col: bool, p: &Parameter<String>, w: Option<ComplexWordKind<H>>| {
        let k = w.map(|w| complex(w, u)).into_iter().collect();
        N::new(t, format!("{}{}", if col { ":" } else { "" }, param(p)), k)
    };
    match s {
        Command(g) => N::new("cs", "", vec![grp(g, u)]),
        Len(p) => N::leaf("len", param(&p)),
        Arith(a) => N::new("ar", "", a.iter().map(arith).collect()),
        Default(c, p, w) => f("def", c, &p, w),
        Assign(c, p, w) => f("asg", c, &p, w),
        Error(c, p, w) => f("err", c, &p, w),
        Alternative(c, p, w) => f("alt", c, &p, w),
        RemoveSmallestSuffix(p, w) => f("ss", false, &p, w),
        RemoveLargestSuffix(p, w) => f("ls", false, &p, w),
        RemoveSmallestPrefix(p, w) => f("sp", false, &p, w),
        RemoveLargestPrefix(p, w) => f("lp", false, &p, w),
    }
}

impl Builder for Rec {
    type Command = H;
    type CommandList = H;
    type ListableCommand = H;
    type PipeableCommand = H;
    type CompoundCommand = H;
    type Word = H;
    type Redirect = H;
    type Error = BErr;

    fn complete_command(&mut self, pre: Vec<Newline>, list: H, s: SeparatorKind, c: Option<Newline>) -> R {
        self.enter("complete_command")?;
        let mut u = Vec::new();
        let l = list.take(&mut u);
        self.make("complete_command", u, N::new("cc", sep(s), vec![cm(pre), l, opt(c)]))
    }
    fn and_or_list(&mut self, first: H, rest: Vec<(Vec<Newline>, AndOr<H>)>) -> R {
        self.enter("and_or_list")?;
        let mut u = Vec::new();
        let mut k = vec![first.take(&mut u)];
        for (c, x) in rest {
            let (t, h) = match x {
                AndOr::And(h) => ("and", h),
                AndOr::Or(h) => ("or", h),
            };
            let h = h.take(&mut u);
            k.push(N::new(t, "", vec![cm(c), h]));
        }
        self.make("and_or_list", u, N::new("ao", "", k))
    }
    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<Newline>, H)>) -> R {
        self.enter("pipeline")?;
        let mut u = Vec::new();
        let k = cmds
            .into_iter()
            .map(|(c, h)| {
                let h = h.take(&mut u);
                N::new("pe", "", vec![h, cm(c)])
            })
            .collect();
        self.make("pipeline", u, N::new("pipe", if bang { "!" } else { "" }, k))
    }
    fn simple_command(
        &mut self,
        vars: Vec<RedirectOrEnvVar<H, String, H>>,
        args: Vec<RedirectOrCmdWord<H, H>>,
    ) -> R {
        self.enter("simple_command")?;
        let mut u = Vec::new();
        let v = vars
            .into_iter()
            .map(|x| match x {
                RedirectOrEnvVar::Redirect(r) => r.take(&mut u),
                RedirectOrEnvVar::EnvVar(n, w) => {
                    let k = w.map(|w| w.take(&mut u)).into_iter().collect();
                    N::new("as", n, k)
                }
            })
            .collect();
        let a = args
            .into_iter()
            .map(|x| match x {
                RedirectOrCmdWord::Redirect(r) => r.take(&mut u),
                RedirectOrCmdWord::CmdWord(w) => w.take(&mut u),
            })
            .collect();
        self.make("simple_command", u, N::new("sc", "", vec![N::new("vars", "", v), N::new("args", "", a)]))
    }
    fn brace_group(&mut self, cmds: CommandGroup<H>, redirects: Vec<H>) -> R {
        self.enter("brace_group")?;
        let mut u = Vec::new();
        let k = vec![grp(cmds, &mut u), io(redirects, &mut u)];
        self.make("brace_group", u, N::new("brace", "", k))
    }
    fn subshell(&mut self, cmds: CommandGroup<H>, redirects: Vec<H>) -> R {
        self.enter("subshell")?;
        let mut u = Vec::new();
        let k = vec![grp(cmds, &mut u), io(redirects, &mut u)];
        self.make("subshell", u, N::new("subshell", "", k))
    }
    fn loop_command(&mut self, kind: LoopKind, gb: GuardBodyPairGroup<H>, redirects: Vec<H>) -> R {
        self.enter("loop_command")?;
        let mut u = Vec::new();
        let k = vec![grp(gb.guard, &mut u), grp(gb.body, &mut u), io(redirects, &mut u)];
        let t = if kind == LoopKind::While { "while" } else { "until" };
        self.make("loop_command", u, N::new(t, "", k))
    }
    fn if_command(&mut self, f: IfFragments<H>, redirects: Vec<H>) -> R {
        self.enter("if_command")?;
        let mut u = Vec::new();
        let mut k = if_kids(f, &mut u);
        k.push(io(redirects, &mut u));
        self.make("if_command", u, N::new("if", "", k))
    }
    fn for_command(&mut self, f: ForFragments<H, H>, redirects: Vec<H>) -> R {
        self.enter("for_command")?;
        let mut u = Vec::new();
        let var = f.var.clone();
        let mut k = for_kids(f, &mut u);
        k.push(io(redirects, &mut u));
        self.make("for_command", u, N::new("for", var, k))
    }
    fn case_command(&mut self, f: CaseFragments<H, H>, redirects: Vec<H>) -> R {
        self.enter("case_command")?;
        let mut u = Vec::new();
        let mut k = case_kids(f, &mut u);
        k.push(io(redirects, &mut u));
        self.make("case_command", u, N::new("case", "", k))
    }
    fn compound_command_into_pipeable(&mut self, cmd: H) -> R {
        self.enter("compound_command_into_pipeable")?;
        let mut u = Vec::new();
        let n = cmd.take(&mut u);
        self.make("compound_command_into_pipeable", u, n)
    }
    fn function_declaration(&mut self, name: String, c: Vec<Newline>, body: H) -> R {
        self.enter("function_declaration")?;
        let mut u = Vec::new();
        let b = body.take(&mut u);
        self.make("function_declaration", u, N::new("fn", name, vec![cm(c), b]))
    }
    fn comments(&mut self, comments: Vec<Newline>) -> Result<(), BErr> {
        self.enter("comments")?;
        let n = cm(comments);
        let mut s = lock(&self.st);
        let h = s.hash();
        s.hashes.push(mix2(mix2(h, hash_str("comments")), n.h));
        s.comments.push(n);
        Ok(())
    }
    fn word(&mut self, kind: ComplexWordKind<H>) -> R {
        self.enter("word")?;
        let mut u = Vec::new();
        let n = complex(kind, &mut u);
        self.make("word", u, n)
    }
    fn redirect(&mut self, kind: RedirectKind<H>) -> R {
        self.enter("redirect")?;
        let mut u = Vec::new();
        let (t, fd, w): (&'static str, _, _) = match kind {
            RedirectKind::Read(f, w) => ("r<", f, w),
            RedirectKind::Write(f, w) => ("r>", f, w),
            RedirectKind::ReadWrite(f, w) => ("r<>", f, w),
            RedirectKind::Append(f, w) => ("r>>", f, w),
            RedirectKind::Clobber(f, w) => ("r>|", f, w),
            RedirectKind::Heredoc(f, w) => ("r<<", f, w),
            RedirectKind::DupRead(f, w) => ("r<&", f, w),
            RedirectKind::DupWrite(f, w) => ("r>&", f, w),
        };
        let w = w.take(&mut u);
        self.make("redirect", u, N::new(t, fd.map_or(String::new(), |f| f.to_string()), vec![w]))
    }
}

pub fn if_kids(f: IfFragments<H>, u: &mut Vec<u32>) -> Vec<N> {
    let mut k: Vec<N> = f
        .conditionals
        .into_iter()
        .map(|gb| {
            let g = grp(gb.guard, u);
            N::new("gb", "", vec![g, grp(gb.body, u)])
        })
        .collect();
    if let Some(e) = f.else_branch {
        k.push(N::new("else", "", vec![grp(e, u)]));
    }
    k
}
pub fn for_kids(f: ForFragments<H, H>, u: &mut Vec<u32>) -> Vec<N> {
    let mut k = vec![opt(f.var_comment)];
    if let Some((pre, words, wc)) = f.words {
        let mut w = vec![cm(pre)];
        for x in words {
            w.push(x.take(u));
        }
        w.push(opt(wc));
        k.push(N::new("in", "", w));
    }
    k.push(cm(f.pre_body_comments));
    k.push(grp(f.body, u));
    k
}
pub fn case_kids(f: CaseFragments<H, H>, u: &mut Vec<u32>) -> Vec<N> {
    let mut k = vec![f.word.take(u), cm(f.post_word_comments), opt(f.in_comment)];
    for a in f.arms {
        let pats = a.patterns.pattern_alternatives.into_iter().map(|x| x.take(u)).collect();
        let body = grp(a.body, u);
        k.push(N::new(
            "arm",
            "",
            vec![
                cm(a.patterns.pre_pattern_comments),
                N::new("pats", "", pats),
                opt(a.patterns.pattern_comment),
                body,
                opt(a.arm_comment),
            ],
        ));
    }
    k.push(cm(f.post_arms_comments));
    k
}
