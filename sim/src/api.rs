//! Histories of public parser calls.

use crate::common::*;
use crate::rec::*;
use crate::tape::Tape;
use crate::tree::N;
use conch_parser::ast::builder::{Builder, CommandGroup, LoopKind, Newline};
use conch_parser::parse::{CommandGroupDelimiters, ParseError, Parser, SourcePos};
use conch_parser::token::Token;

/// A builder whose values are all `H`.
pub trait Sim:
    Builder<
    Command = H,
    CommandList = H,
    ListableCommand = H,
    PipeableCommand = H,
    CompoundCommand = H,
    Word = H,
    Redirect = H,
    Error = BErr,
>
{
}
impl<T: ?Sized> Sim for T where
    T: Builder<
        Command = H,
        CommandList = H,
        ListableCommand = H,
        PipeableCommand = H,
        CompoundCommand = H,
        Word = H,
        Redirect = H,
        Error = BErr,
    >
{
}
/// The same as a trait object.
pub type DynRec = dyn Builder<
    Command = H,
    CommandList = H,
    ListableCommand = H,
    PipeableCommand = H,
    CompoundCommand = H,
    Word = H,
    Redirect = H,
    Error = BErr,
>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Complete,
    AndOr,
    Pipeline,
    Command,
    Simple,
    RedirectList,
    Redirect,
    Heredoc,
    Word,
    WordWs,
    Backtick,
    Parameter,
    DoGroup,
    Brace,
    Subshell,
    Compound,
    Loop,
    If,
    For,
    Case,
    MaybeFn,
    Function,
    SkipWs,
    Linebreak,
    Newline,
    PeekTok(u8),
    PeekWord(u8),
    ResTok(u8),
    ResWord(u8),
    Group(u8),
    Arith,
    Pos,
}

pub const WORDS: &[&[&str]] = &[
    &["if", "then", "else", "elif", "fi", "while", "until", "do", "done", "for", "case", "esac", "in", "function", "{", "}"],
    &["do", "done"],
    &["{"],
    &[],
    &["echo", "a", "foo", "x1"],
    &["if", "while", "until", "for", "case"],
    &["do"],
    &["then"],
    &["fi"],
    &["done"],
    &["esac"],
    &["in"],
    &["else", "elif"],
    &["function"],
    &["!", "}", "do"],
    &["w1", "W2", "\u{e9}"],
    &["case", "for", "if", "do"],
];
pub fn words(i: u8) -> &'static [&'static str] {
    WORDS[i as usize % WORDS.len()]
}

pub const TOKS: u8 = 18;
pub fn toks(i: u8) -> Vec<Token> {
    match i % TOKS {
        0 => vec![Token::CurlyClose],
        1 => vec![Token::CurlyOpen, Token::Bang, Token::ParenOpen],
        2 => vec![],
        3 => vec![Token::Newline, Token::Semi, Token::Amp, Token::Pipe],
        4 => vec![Token::Whitespace(" ".into())],
        5 => vec![Token::Whitespace("\t".into()), Token::Name("foo".into()), Token::DLess],
        6 => vec![Token::Name("echo".into()), Token::Literal("1".into()), Token::Backtick, Token::Dollar, Token::DoubleQuote],
        7 => vec![Token::CurlyOpen],
        8 => vec![Token::Newline],
        9 => vec![Token::Bang],
        10 => vec![Token::ParenClose, Token::DSemi],
        11 => vec![Token::Less, Token::Great, Token::Clobber],
        12 => vec![Token::Name("w1".into()), Token::Name("w2".into()), Token::Name("do".into()), Token::Name("if".into())],
        13 => vec![Token::Semi, Token::Whitespace("  ".into()), Token::Newline],
        14 => vec![Token::Pound, Token::SingleQuote, Token::Backslash],
        15 => vec![Token::Whitespace(" ".into()), Token::Whitespace("  ".into()), Token::CurlyOpen, Token::ParenOpen],
        16 => vec![Token::AndIf, Token::OrIf],
        _ => vec![Token::Dollar, Token::At, Token::Tilde, Token::Star],
    }
}

pub fn delims(i: u8) -> CommandGroupDelimiters<'static, 'static, 'static> {
    match i % 6 {
        0 => CommandGroupDelimiters::default(),
        1 => CommandGroupDelimiters { reserved_words: &["done", "fi", "}", "esac"], ..Default::default() },
        2 => CommandGroupDelimiters { exact_tokens: &[Token::ParenClose, Token::DSemi], ..Default::default() },
        3 => CommandGroupDelimiters { reserved_tokens: &[Token::CurlyClose], ..Default::default() },
        4 => CommandGroupDelimiters { reserved_words: &["then", "do"], ..Default::default() },
        _ => CommandGroupDelimiters {
            reserved_words: &["fi", "elif"],
            reserved_tokens: &[Token::CurlyClose],
            exact_tokens: &[Token::ParenClose, Token::OrIf, Token::DSemi],
        },
    }
}

/// Every public parsing call.
pub fn any_op(t: &mut Tape) -> Op {
    use Op::*;
    let i = t.draw(8) as u8;
    match t.draw(40) {
        0..=6 => Complete,
        7 => AndOr,
        8 => Pipeline,
        9 => Command,
        10 => Simple,
        11 => RedirectList,
        12 => Redirect,
        13 => Heredoc,
        14 | 15 => Word,
        16 => WordWs,
        17 => Backtick,
        18 => Parameter,
        19 => DoGroup,
        20 => Brace,
        21 => Subshell,
        22 => Compound,
        23 => Loop,
        24 => If,
        25 => For,
        26 => Case,
        27 => MaybeFn,
        28 => Function,
        29 => SkipWs,
        30 => Linebreak,
        31 => Newline,
        32 => PeekTok(t.draw(TOKS as u32 - 1) as u8),
        33 => PeekWord(t.below(WORDS.len()) as u8),
        34 => ResTok(t.draw(TOKS as u32 - 1) as u8),
        35 => ResWord(t.below(WORDS.len()) as u8),
        36 | 37 => Group(i % 6),
        38 => Arith,
        _ => Pos,
    }
}

/// What a call returned; the builder's values have been taken over.
pub enum Ret {
    Val(N),
    Nothing,
    Err(ParseError<BErr>),
    Panic(String),
    Injected(SimPanic),
}
impl Ret {
    pub fn show(&self) -> String {
        match self {
            Ret::Val(s) => format!("ok {}", s.exact()),
            Ret::Nothing => "nothing".into(),
            Ret::Err(e) => format!("error {:?}", e),
            Ret::Panic(s) => format!("PANIC {}", s),
            Ret::Injected(p) => format!("injected {}", p.0),
        }
    }
}

type PR<T> = Result<T, ParseError<BErr>>;

pub fn call<I, B>(p: &mut Parser<I, B>, op: Op, st: &Shared) -> Ret
where
    I: Iterator<Item = Token>,
    B: Sim,
{
    let r: Result<PR<Option<N>>, Out> = guarded(|| -> PR<Option<N>> {
        let mut u: Vec<u32> = Vec::new();
        let r = inner(p, op, &mut u);
        settle(st, &u);
        r
    });
    match r {
        Ok(Ok(Some(s))) => Ret::Val(s),
        Ok(Ok(None)) => Ret::Nothing,
        Ok(Err(e)) => Ret::Err(e),
        Err(Out::Injected(p)) => Ret::Injected(p),
        Err(o) => Ret::Panic(o.show()),
    }
}

fn g(x: CommandGroup<H>, u: &mut Vec<u32>) -> N {
    grp(x, u)
}
fn lines(v: Vec<Newline>) -> N {
    cm(v)
}

fn inner<I, B>(p: &mut Parser<I, B>, op: Op, u: &mut Vec<u32>) -> PR<Option<N>>
where
    I: Iterator<Item = Token>,
    B: Sim,
{
    use Op::*;
    let one = |h: H, u: &mut Vec<u32>| -> PR<Option<N>> { Ok(Some(h.take(u))) };
    let opt = |h: Option<H>, u: &mut Vec<u32>| -> PR<Option<N>> { Ok(h.map(|h| h.take(u))) };
    match op {
        Complete => opt(p.complete_command()?, u),
        AndOr => one(p.and_or_list()?, u),
        Pipeline => one(p.pipeline()?, u),
        Command => one(p.command()?, u),
        Simple => one(p.simple_command()?, u),
        RedirectList => {
            let v = p.redirect_list()?;
            Ok(Some(io(v, u)))
        }
        Redirect => match p.redirect()? {
            None => Ok(None),
            Some(Ok(r)) => Ok(Some(N::new("redirect", "", vec![r.take(u)]))),
            Some(Err(w)) => Ok(Some(N::new("word", "", vec![w.take(u)]))),
        },
        Heredoc => one(p.redirect_heredoc(Some(3))?, u),
        Word => opt(p.word()?, u),
        WordWs => opt(p.word_preserve_trailing_whitespace()?, u),
        Backtick => one(p.backticked_command_substitution()?, u),
        Parameter => one(p.parameter()?, u),
        DoGroup => Ok(Some(g(p.do_group()?, u))),
        Brace => Ok(Some(g(p.brace_group()?, u))),
        Subshell => Ok(Some(g(p.subshell()?, u))),
        Compound => one(p.compound_command()?, u),
        Loop => {
            let (k, gb) = p.loop_command()?;
            let a = g(gb.guard, u);
            let t = match k {
                LoopKind::While => "while",
                LoopKind::Until => "until",
            };
            Ok(Some(N::new(t, "", vec![a, g(gb.body, u)])))
        }
        If => {
            let f = p.if_command()?;
            Ok(Some(N::new("if", "", if_kids(f, u))))
        }
        For => {
            let f = p.for_command()?;
            let v = f.var.clone();
            Ok(Some(N::new("for", v, for_kids(f, u))))
        }
        Case => {
            let f = p.case_command()?;
            Ok(Some(N::new("case", "", case_kids(f, u))))
        }
        MaybeFn => opt(p.maybe_function_declaration()?, u),
        Function => one(p.function_declaration()?, u),
        SkipWs => {
            p.skip_whitespace();
            Ok(None)
        }
        Linebreak => Ok(Some(lines(p.linebreak()))),
        Newline => Ok(p.newline().map(|n| lines(vec![n]))),
        PeekTok(i) => Ok(p.peek_reserved_token(&toks(i)).map(|t| N::leaf("tok", format!("{:?}", t)))),
        PeekWord(i) => Ok(p.peek_reserved_word(words(i)).map(|s| N::leaf("kw", s))),
        ResTok(i) => Ok(Some(N::leaf("tok", format!("{:?}", p.reserved_token(&toks(i))?)))),
        ResWord(i) => Ok(p.reserved_word(words(i)).ok().map(|s| N::leaf("kw", s))),
        Group(i) => {
            let d = delims(i);
            Ok(Some(g(p.command_group(d)?, u)))
        }
        Arith => Ok(Some(arith(&p.arithmetic_substitution()?))),
        Pos => Ok(Some(N::leaf("pos", show_pos(p.pos())))),
    }
}

pub fn show_pos(p: SourcePos) -> String {
    format!("{}:{}:{}", p.byte, p.line, p.col)
}
