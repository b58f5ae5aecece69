//! C10: replicas of one parse with different builders and wrappers.

use super::errs::any_text;
use super::Prop;
use crate::api::{self, delims, DynRec, show_pos, toks, words, Op};
use crate::common::*;
use crate::conv::Conv;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::rec::{arith, cm, lock, Rec, Shared};
use crate::tape::{hash_str, mix2};
use crate::tree::N;
use crate::wire::*;
use conch_parser::ast::builder::*;
use conch_parser::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};
use conch_parser::lexer::Lexer;
use conch_parser::parse::{ParseError, Parser, ParserIterator};
use conch_parser::token::Token;
use std::sync::{Arc, Mutex};

pub static C10: Prop = Prop {
    id: "C10",
    level: "exploration",
    run: c10,
    quick: 300_000,
    thorough: 8_000_000,
    rule: "a run feeds one delivered text (whole, cut, corrupted or soup) to the recording builder and to every provided builder and wrapper as replicas with their own arrival schedules and hints, driven by one history of calls at random relative speeds, in half of the runs with the same builder call failing in all; results, errors, positions, consumption and trees are compared replica by replica; non-trivial: the trees hold at least ten nodes or the injected failure fired",
};

#[derive(Default)]
pub struct FwdSt {
    pub calls: u64,
    pub fault: Option<u64>,
    pub fired: bool,
    pub names: u64,
}

/// Forwards to another builder; fails where told to.
pub struct Fwd<B> {
    pub inner: B,
    pub st: Arc<Mutex<FwdSt>>,
}

#[derive(Debug)]
pub struct FErr(#[allow(dead_code)] u64);
impl std::fmt::Display for FErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failure {}", self.0)
    }
}

impl<B> Fwd<B> {
    fn enter(&self, name: &str) -> Result<(), FErr> {
        let mut s = lock(&self.st);
        let k = s.calls;
        s.calls += 1;
        s.names = mix2(s.names, hash_str(name));
        if s.fault == Some(k) {
            s.fired = true;
            return Err(FErr(k));
        }
        Ok(())
    }
}
fn lift<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, FErr> {
    r.map_err(|e| panic!("a builder that cannot fail failed: {:?}", e))
}

impl<B: Builder> Builder for Fwd<B>
where
    B::Error: std::fmt::Debug,
{
    type Command = B::Command;
    type CommandList = B::CommandList;
    type ListableCommand = B::ListableCommand;
    type PipeableCommand = B::PipeableCommand;
    type CompoundCommand = B::CompoundCommand;
    type Word = B::Word;
    type Redirect = B::Redirect;
    type Error = FErr;

    fn complete_command(
        &mut self,
        a: Vec<Newline>,
        b: B::CommandList,
        c: SeparatorKind,
        d: Option<Newline>,
    ) -> Result<B::Command, FErr> {
        self.enter("complete_command")?;
        lift(self.inner.complete_command(a, b, c, d))
    }
    fn and_or_list(
        &mut self,
        a: B::ListableCommand,
        b: Vec<(Vec<Newline>, AndOr<B::ListableCommand>)>,
    ) -> Result<B::CommandList, FErr> {
        self.enter("and_or_list")?;
        lift(self.inner.and_or_list(a, b))
    }
    fn pipeline(&mut self, a: bool, b: Vec<(Vec<Newline>, B::PipeableCommand)>) -> Result<B::ListableCommand, FErr> {
        self.enter("pipeline")?;
        lift(self.inner.pipeline(a, b))
    }
    fn simple_command(
        &mut self,
        a: Vec<RedirectOrEnvVar<B::Redirect, String, B::Word>>,
        b: Vec<RedirectOrCmdWord<B::Redirect, B::Word>>,
    ) -> Result<B::PipeableCommand, FErr> {
        self.enter("simple_command")?;
        lift(self.inner.simple_command(a, b))
    }
    fn brace_group(&mut self, a: CommandGroup<B::Command>, b: Vec<B::Redirect>) -> Result<B::CompoundCommand, FErr> {
        self.enter("brace_group")?;
        lift(self.inner.brace_group(a, b))
    }
    fn subshell(&mut self, a: CommandGroup<B::Command>, b: Vec<B::Redirect>) -> Result<B::CompoundCommand, FErr> {
        self.enter("subshell")?;
        lift(self.inner.subshell(a, b))
    }
    fn loop_command(
        &mut self,
        a: LoopKind,
        b: GuardBodyPairGroup<B::Command>,
        c: Vec<B::Redirect>,
    ) -> Result<B::CompoundCommand, FErr> {
        self.enter("loop_command")?;
        lift(self.inner.loop_command(a, b, c))
    }
    fn if_command(&mut self, a: IfFragments<B::Command>, b: Vec<B::Redirect>) -> Result<B::CompoundCommand, FErr> {
        self.enter("if_command")?;
        lift(self.inner.if_command(a, b))
    }
    fn for_command(
        &mut self,
        a: ForFragments<B::Word, B::Command>,
        b: Vec<B::Redirect>,
    ) -> Result<B::CompoundCommand, FErr> {
        self.enter("for_command")?;
        lift(self.inner.for_command(a, b))
    }
    fn case_command(
        &mut self,
        a: CaseFragments<B::Word, B::Command>,
        b: Vec<B::Redirect>,
    ) -> Result<B::CompoundCommand, FErr> {
        self.enter("case_command")?;
        lift(self.inner.case_command(a, b))
    }
    fn compound_command_into_pipeable(&mut self, a: B::CompoundCommand) -> Result<B::PipeableCommand, FErr> {
        self.enter("compound_command_into_pipeable")?;
        lift(self.inner.compound_command_into_pipeable(a))
    }
    fn function_declaration(
        &mut self,
        a: String,
        b: Vec<Newline>,
        c: B::CompoundCommand,
    ) -> Result<B::PipeableCommand, FErr> {
        self.enter("function_declaration")?;
        lift(self.inner.function_declaration(a, b, c))
    }
    fn comments(&mut self, a: Vec<Newline>) -> Result<(), FErr> {
        self.enter("comments")?;
        lift(self.inner.comments(a))
    }
    fn word(&mut self, a: ComplexWordKind<B::Command>) -> Result<B::Word, FErr> {
        self.enter("word")?;
        lift(self.inner.word(a))
    }
    fn redirect(&mut self, a: RedirectKind<B::Word>) -> Result<B::Redirect, FErr> {
        self.enter("redirect")?;
        lift(self.inner.redirect(a))
    }
}

/// Part of a result: from the parser itself, or a builder's value.
enum Item {
    S(String),
    V(Option<N>),
}

/// What one call did.
struct Ans {
    kind: &'static str,
    items: Vec<Item>,
    panic: bool,
    pos: String,
    read: usize,
    polls: u64,
    calls: u64,
    names: u64,
}
impl Ans {
    fn show(&self, trees: bool) -> String {
        let mut s = format!("{} at {} read {} calls {}:{:x}", self.kind, self.pos, self.read, self.calls, self.names);
        for i in &self.items {
            s.push(' ');
            match i {
                Item::S(x) => s.push_str(x),
                Item::V(Some(n)) if trees => s.push_str(&n.lossy()),
                Item::V(_) => s.push('_'),
            }
        }
        s
    }
    fn nodes(&self) -> usize {
        self.items.iter().map(|i| if let Item::V(Some(n)) = i { n.count() } else { 0 }).sum()
    }
}

fn v<T: Conv>(x: &T) -> Item {
    Item::V(if T::full() { Some(x.n()) } else { None })
}
fn c(x: &[Newline]) -> Item {
    Item::S(cm(x.to_vec()).exact())
}
fn co(x: &Option<Newline>) -> Item {
    Item::S(format!("{:?}", x))
}
fn g<C: Conv>(o: &mut Vec<Item>, x: &CommandGroup<C>) {
    o.push(Item::S(format!("group of {}", x.commands.len())));
    o.extend(x.commands.iter().map(v));
    o.push(c(&x.trailing_comments));
}

type Got = Result<Option<Vec<Item>>, ParseError<FErr>>;

fn invoke<I, B>(p: &mut Parser<I, Fwd<B>>, op: Op) -> Got
where
    I: Iterator<Item = Token>,
    B: Builder,
    B::Error: std::fmt::Debug,
    B::Command: Conv,
    B::CommandList: Conv,
    B::ListableCommand: Conv,
    B::PipeableCommand: Conv,
    B::CompoundCommand: Conv,
    B::Word: Conv,
    B::Redirect: Conv,
{
    use Op::*;
    let one = |i: Item| -> Got { Ok(Some(vec![i])) };
    match op {
        Complete => Ok(p.complete_command()?.map(|x| vec![v(&x)])),
        AndOr => one(v(&p.and_or_list()?)),
        Pipeline => one(v(&p.pipeline()?)),
        Command => one(v(&p.command()?)),
        Simple => one(v(&p.simple_command()?)),
        RedirectList => Ok(Some(p.redirect_list()?.iter().map(v).collect())),
        Redirect => Ok(match p.redirect()? {
            None => None,
            Some(Ok(r)) => Some(vec![Item::S("redirect".into()), v(&r)]),
            Some(Err(w)) => Some(vec![Item::S("word".into()), v(&w)]),
        }),
        Heredoc => one(v(&p.redirect_heredoc(Some(3))?)),
        Word => Ok(p.word()?.map(|x| vec![v(&x)])),
        WordWs => Ok(p.word_preserve_trailing_whitespace()?.map(|x| vec![v(&x)])),
        Backtick => one(v(&p.backticked_command_substitution()?)),
        Parameter => one(v(&p.parameter()?)),
        DoGroup => {
            let mut o = Vec::new();
            g(&mut o, &p.do_group()?);
            Ok(Some(o))
        }
        Brace => {
            let mut o = Vec::new();
            g(&mut o, &p.brace_group()?);
            Ok(Some(o))
        }
        Subshell => {
            let mut o = Vec::new();
            g(&mut o, &p.subshell()?);
            Ok(Some(o))
        }
        Compound => one(v(&p.compound_command()?)),
        Loop => {
            let (k, gb) = p.loop_command()?;
            let mut o = vec![Item::S(format!("{:?}", k))];
            g(&mut o, &gb.guard);
            g(&mut o, &gb.body);
            Ok(Some(o))
        }
        If => {
            let f = p.if_command()?;
            let mut o = Vec::new();
            for gb in &f.conditionals {
                g(&mut o, &gb.guard);
                g(&mut o, &gb.body);
            }
            if let Some(e) = &f.else_branch {
                g(&mut o, e);
            }
            Ok(Some(o))
        }
        For => {
            let f = p.for_command()?;
            let mut o = vec![Item::S(f.var.clone()), co(&f.var_comment)];
            if let Some((a, w, b)) = &f.words {
                o.push(c(a));
                o.extend(w.iter().map(v));
                o.push(co(b));
            }
            o.push(c(&f.pre_body_comments));
            g(&mut o, &f.body);
            Ok(Some(o))
        }
        Case => {
            let f = p.case_command()?;
            let mut o = vec![v(&f.word), c(&f.post_word_comments), co(&f.in_comment), c(&f.post_arms_comments)];
            for a in &f.arms {
                o.push(c(&a.patterns.pre_pattern_comments));
                o.extend(a.patterns.pattern_alternatives.iter().map(v));
                o.push(co(&a.patterns.pattern_comment));
                g(&mut o, &a.body);
                o.push(co(&a.arm_comment));
            }
            Ok(Some(o))
        }
        MaybeFn => Ok(p.maybe_function_declaration()?.map(|x| vec![v(&x)])),
        Function => one(v(&p.function_declaration()?)),
        SkipWs => {
            p.skip_whitespace();
            Ok(None)
        }
        Linebreak => one(c(&p.linebreak())),
        Newline => one(co(&p.newline())),
        PeekTok(i) => one(Item::S(format!("{:?}", p.peek_reserved_token(&toks(i))))),
        PeekWord(i) => one(Item::S(format!("{:?}", p.peek_reserved_word(words(i))))),
        ResTok(i) => one(Item::S(format!("{:?}", p.reserved_token(&toks(i))?))),
        ResWord(i) => one(Item::S(format!("{:?}", p.reserved_word(words(i))))),
        Group(i) => {
            let d = delims(i);
            let mut o = Vec::new();
            g(&mut o, &p.command_group(d)?);
            Ok(Some(o))
        }
        Arith => one(Item::S(arith(&p.arithmetic_substitution()?).exact())),
        Pos => one(Item::S(show_pos(p.pos()))),
    }
}

enum Drv<B: Builder>
where
    B::Error: std::fmt::Debug,
{
    P(Parser<Lexer<Src>, Fwd<B>>),
    I(ParserIterator<Lexer<Src>, Fwd<B>>),
}

struct Rep<B: Builder>
where
    B::Error: std::fmt::Debug,
{
    d: Drv<B>,
    w: WireRef,
    st: Arc<Mutex<FwdSt>>,
}

trait Replica {
    fn step(&mut self, op: Op) -> Ans;
    fn fired(&self) -> bool;
    fn clock(&self) -> u64;
}

impl<B> Replica for Rep<B>
where
    B: Builder,
    B::Error: std::fmt::Debug,
    B::Command: Conv,
    B::CommandList: Conv,
    B::ListableCommand: Conv,
    B::PipeableCommand: Conv,
    B::CompoundCommand: Conv,
    B::Word: Conv,
    B::Redirect: Conv,
{
    fn step(&mut self, op: Op) -> Ans {
        let d = &mut self.d;
        let r: Result<Got, Out> = guarded(|| match d {
            Drv::P(p) => invoke(p, op),
            Drv::I(i) => match i.next() {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(vec![v(&x)])),
                Some(Err(e)) => Err(e),
            },
        });
        let pos = match &self.d {
            Drv::P(p) => show_pos(p.pos()),
            Drv::I(_) => String::new(),
        };
        let (kind, items, panic) = match r {
            Ok(Ok(Some(i))) => ("value", i, false),
            Ok(Ok(None)) => ("nothing", vec![], false),
            Ok(Err(e)) => ("error", vec![Item::S(format!("{:?} / {}", e, e))], false),
            Err(o) => ("panic", vec![Item::S(o.show())], true),
        };
        let (read, polls) = {
            let w = lock(&self.w);
            (w.pos, w.polls)
        };
        let s = lock(&self.st);
        Ans { kind, items, panic, pos, read, polls, calls: s.calls, names: s.names }
    }
    fn fired(&self) -> bool {
        lock(&self.st).fired
    }
    fn clock(&self) -> u64 {
        lock(&self.w).clock
    }
}

struct Feed {
    text: Arc<Vec<char>>,
    fault: Option<u64>,
    iter: bool,
}

fn rep<B>(b: B, f: &Feed, c: &mut Ctx) -> Box<dyn Replica>
where
    B: Builder + 'static,
    B::Error: std::fmt::Debug,
    B::Command: Conv,
    B::CommandList: Conv,
    B::ListableCommand: Conv,
    B::PipeableCommand: Conv,
    B::CompoundCommand: Conv,
    B::Word: Conv,
    B::Redirect: Conv,
{
    let w = wire(f.text.clone());
    let a = arrivals(&mut c.t, f.text.len());
    {
        let mut s = lock(&w);
        s.arrivals = a;
        s.hint = c.t.draw(6) as u8;
    }
    let st = Arc::new(Mutex::new(FwdSt { fault: f.fault, ..Default::default() }));
    let p = Parser::with_builder(Lexer::new(Src(w.clone())), Fwd { inner: b, st: st.clone() });
    let d = if f.iter { Drv::I(p.into_iter()) } else { Drv::P(p) };
    Box::new(Rep { d, w, st })
}

/// A `&mut` builder that lives long enough for a trait object.
struct Lent<B>(Box<B>);
impl<B> Lent<B> {
    fn new(b: B) -> Self {
        Lent(Box::new(b))
    }
}
macro_rules! lent {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        impl<B: Builder> Builder for Lent<B> {
            type Command = B::Command;
            type CommandList = B::CommandList;
            type ListableCommand = B::ListableCommand;
            type PipeableCommand = B::PipeableCommand;
            type CompoundCommand = B::CompoundCommand;
            type Word = B::Word;
            type Redirect = B::Redirect;
            type Error = B::Error;
            $(fn $f(&mut self, $($a: $t),*) -> Result<$r, B::Error> {
                // through the library's implementation for `&mut T`
                let mut m: &mut B = &mut self.0;
                <&mut B as Builder>::$f(&mut m, $($a),*)
            })*
        }
    };
}
lent! {
    complete_command(a: Vec<Newline>, b: B::CommandList, c: SeparatorKind, d: Option<Newline>) -> B::Command;
    and_or_list(a: B::ListableCommand, b: Vec<(Vec<Newline>, AndOr<B::ListableCommand>)>) -> B::CommandList;
    pipeline(a: bool, b: Vec<(Vec<Newline>, B::PipeableCommand)>) -> B::ListableCommand;
    simple_command(a: Vec<RedirectOrEnvVar<B::Redirect, String, B::Word>>, b: Vec<RedirectOrCmdWord<B::Redirect, B::Word>>) -> B::PipeableCommand;
    brace_group(a: CommandGroup<B::Command>, b: Vec<B::Redirect>) -> B::CompoundCommand;
    subshell(a: CommandGroup<B::Command>, b: Vec<B::Redirect>) -> B::CompoundCommand;
    loop_command(a: LoopKind, b: GuardBodyPairGroup<B::Command>, c: Vec<B::Redirect>) -> B::CompoundCommand;
    if_command(a: IfFragments<B::Command>, b: Vec<B::Redirect>) -> B::CompoundCommand;
    for_command(a: ForFragments<B::Word, B::Command>, b: Vec<B::Redirect>) -> B::CompoundCommand;
    case_command(a: CaseFragments<B::Word, B::Command>, b: Vec<B::Redirect>) -> B::CompoundCommand;
    compound_command_into_pipeable(a: B::CompoundCommand) -> B::PipeableCommand;
    function_declaration(a: String, b: Vec<Newline>, c: B::CompoundCommand) -> B::PipeableCommand;
    comments(a: Vec<Newline>) -> ();
    word(a: ComplexWordKind<B::Command>) -> B::Word;
    redirect(a: RedirectKind<B::Word>) -> B::Redirect;
}

/// `StringBuilder` as a trait object.
type DynString = dyn Builder<
    Command = <StringBuilder as Builder>::Command,
    CommandList = <StringBuilder as Builder>::CommandList,
    ListableCommand = <StringBuilder as Builder>::ListableCommand,
    PipeableCommand = <StringBuilder as Builder>::PipeableCommand,
    CompoundCommand = <StringBuilder as Builder>::CompoundCommand,
    Word = <StringBuilder as Builder>::Word,
    Redirect = <StringBuilder as Builder>::Redirect,
    Error = <StringBuilder as Builder>::Error,
>;

const NAMES: &[&str] = &[
    "StringBuilder",
    "RcBuilder",
    "ArcBuilder",
    "AtomicDefaultBuilder<String>",
    "EmptyBuilder",
    "&mut StringBuilder",
    "Box<StringBuilder>",
    "Box<dyn Builder>",
    "Box<ArcBuilder>",
    "&mut Box<EmptyBuilder>",
    "Box<recorder>",
    "&mut recorder",
    "&mut Box<dyn recorder>",
    "Box<&mut Box<recorder>>",
];

/// A replica, and what its recorder was told where it has one.
fn build(i: usize, f: &Feed, c: &mut Ctx) -> (Box<dyn Replica>, Option<Shared>) {
    let (b, st) = Rec::new();
    let r = match i {
        0 => rep(StringBuilder::new(), f, c),
        1 => rep(RcBuilder::new(), f, c),
        2 => rep(ArcBuilder::new(), f, c),
        3 => rep(AtomicDefaultBuilder::<String>::default(), f, c),
        4 => rep(EmptyBuilder::new(), f, c),
        5 => rep(Lent::new(StringBuilder::default()), f, c),
        6 => rep(Box::new(StringBuilder::new()), f, c),
        7 => {
            let b: Box<DynString> = Box::new(StringBuilder::new());
            rep(b, f, c)
        }
        8 => rep(Box::new(ArcBuilder::default()), f, c),
        9 => rep(Lent::new(Box::new(EmptyBuilder)), f, c),
        10 => rep(Box::new(b), f, c),
        11 => rep(Lent::new(b), f, c),
        12 => {
            let x: Box<DynRec> = Box::new(b);
            rep(Lent::new(x), f, c)
        }
        _ => rep(Box::new(Lent::new(Box::new(b))), f, c),
    };
    (r, if i >= 10 { Some(st) } else { None })
}

fn c10(c: &mut Ctx) -> Res {
    let single = if c.t.chance(12) { Some(super::parts::history(c)) } else { None };
    let (text, single) = match single {
        Some((t, o)) => (Some(t), Some(o)),
        None => (None, None),
    };
    let text = if let Some(t) = text {
        t
    } else if c.t.chance(60) {
        let size = 1 + c.t.draw(c.size.min(3));
        let cfg = if c.t.chance(40) { Cfg::tiny(&mut c.t) } else { Cfg::draw(&mut c.t, size) };
        gen::program(&mut c.t, cfg).text
    } else {
        any_text(c)
    };
    c.text("delivered", &text);
    let iter = single.is_none() && c.t.chance(25);
    let fault = if c.t.chance(40) { Some(c.t.draw(25) as u64) } else { None };
    let f = Feed { text: Arc::new(text), fault, iter };
    let ops: Option<Vec<Op>> = if single.is_some() {
        single
    } else if !iter && c.t.chance(35) {
        let n = 1 + c.t.draw(12);
        Some((0..n).map(|_| api::any_op(&mut c.t)).collect())
    } else {
        None
    };
    // the recorder first: what the builder is handed
    let (b, told) = Rec::new();
    let mut model = rep(b, &f, c);
    let mut want: Vec<Ans> = Vec::new();
    c.cov.execs += 1;
    loop {
        let op = match &ops {
            Some(v) => match v.get(want.len()) {
                Some(o) => *o,
                None => break,
            },
            None => Op::Complete,
        };
        let a = model.step(op);
        ensure!(!a.panic, "panic", "{:?}: {}", op, a.show(true));
        c.log(|| format!("{:?} -> {}", op, clip(&a.show(true), 300)));
        c.cov.state(hash_str(&a.show(true)));
        let end = ops.is_none() && a.kind == "nothing";
        want.push(a);
        if end || want.len() > f.text.len() + 2 {
            break;
        }
    }
    // replicas at their own speeds
    let n = NAMES.len();
    let k = 2 + c.t.below(4);
    let mut reps: Vec<(usize, Box<dyn Replica>, usize)> = Vec::new();
    let mut logs = Vec::new();
    for _ in 0..k {
        let i = c.t.below(n);
        let (r, st) = build(i, &f, c);
        reps.push((i, r, 0));
        logs.push(st);
    }
    c.cov.execs += k as u64;
    c.cov.add("replica", k as u64);
    loop {
        let free: Vec<usize> = (0..reps.len()).filter(|r| reps[*r].2 < want.len()).collect();
        if free.is_empty() {
            break;
        }
        let j = free[c.t.below(free.len())];
        let burst = 1 + c.t.weighted(&[60, 20, 20]) * 3;
        for _ in 0..burst {
            let (i, r, at) = &mut reps[j];
            if *at >= want.len() {
                break;
            }
            let op = ops.as_ref().map_or(Op::Complete, |v| v[*at]);
            let a = r.step(op);
            let e = &want[*at];
            let trees = !matches!(*i, 4 | 9);
            let (x, y) = (e.show(trees), a.show(trees));
            ensure!(
                x == y,
                "diverged",
                "{} differs from what the recorder saw at call {} ({:?}): {}",
                NAMES[*i],
                at,
                op,
                crate::tree::diff(&x, &y)
            );
            ensure!(a.polls == e.polls, "diverged", "{} polled the source {} times, the recorder {}", NAMES[*i], a.polls, e.polls);
            c.cov.note(j as u64);
            *at += 1;
        }
    }
    let fired = model.fired();
    for ((i, _, _), st) in reps.iter().zip(&logs) {
        if let Some(st) = st {
            let (x, y) = (lock(&told).hashes.clone(), lock(st).hashes.clone());
            let k = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
            ensure!(
                x == y,
                "diverged",
                "{}: the recorder inside was told something else from its call {} on: {:?} instead of {:?}",
                NAMES[*i],
                k,
                lock(st).names.get(k),
                { lock(&told).names.get(k).copied() }
            );
        }
    }
    for (i, r, _) in &reps {
        ensure!(r.fired() == fired, "diverged", "{}: the injected failure fired in only one of two replicas", NAMES[*i]);
        c.cov.sim_time += r.clock();
    }
    c.cov.add("builder failure", fired as u64);
    c.cov.nontrivial = fired || want.iter().map(|a| a.nodes()).sum::<usize>() >= 10;
    Ok(())
}
