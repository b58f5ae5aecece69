//! The library's own trees and the recorder's values in one neutral form.

use crate::rec::{arith, param, H};
use crate::tree::N;
use conch_parser::ast::*;
use std::rc::Rc;
use std::sync::Arc;

pub trait Str {
    fn s(&self) -> &str;
}
impl Str for String {
    fn s(&self) -> &str {
        self
    }
}
impl Str for Rc<String> {
    fn s(&self) -> &str {
        self
    }
}
impl Str for Arc<String> {
    fn s(&self) -> &str {
        self
    }
}

pub trait Conv {
    fn n(&self) -> N;
    /// False for values which carry nothing.
    fn full() -> bool {
        true
    }
}

impl Conv for () {
    fn n(&self) -> N {
        N::leaf("?", "")
    }
    fn full() -> bool {
        false
    }
}
impl Conv for H {
    fn n(&self) -> N {
        self.peek().clone()
    }
}
impl<T: Conv> Conv for Box<T> {
    fn n(&self) -> N {
        (**self).n()
    }
}
impl<T: Conv> Conv for Rc<T> {
    fn n(&self) -> N {
        (**self).n()
    }
}
impl<T: Conv> Conv for Arc<T> {
    fn n(&self) -> N {
        (**self).n()
    }
}
impl<T: Str> Conv for TopLevelCommand<T> {
    fn n(&self) -> N {
        self.0.n()
    }
}
impl<T: Str> Conv for AtomicTopLevelCommand<T> {
    fn n(&self) -> N {
        self.0.n()
    }
}
impl<T: Str> Conv for TopLevelWord<T> {
    fn n(&self) -> N {
        self.0.n()
    }
}
impl<T: Str> Conv for AtomicTopLevelWord<T> {
    fn n(&self) -> N {
        self.0.n()
    }
}
impl<T: Conv> Conv for Command<T> {
    fn n(&self) -> N {
        match self {
            Command::Job(l) => N::new("cc", "&", vec![l.n()]),
            Command::List(l) => N::new("cc", ";", vec![l.n()]),
        }
    }
}
impl<T: Conv> Conv for AndOrList<T> {
    fn n(&self) -> N {
        let mut k = vec![self.first.n()];
        for x in &self.rest {
            k.push(match x {
                AndOr::And(x) => N::new("and", "", vec![x.n()]),
                AndOr::Or(x) => N::new("or", "", vec![x.n()]),
            });
        }
        N::new("ao", "", k)
    }
}
impl<T: Conv> Conv for ListableCommand<T> {
    fn n(&self) -> N {
        let pe = |x: &T| N::new("pe", "", vec![x.n()]);
        match self {
            ListableCommand::Single(x) => N::new("pipe", "", vec![pe(x)]),
            ListableCommand::Pipe(b, v) => N::new("pipe", if *b { "!" } else { "" }, v.iter().map(pe).collect()),
        }
    }
}
impl<V: Str, S: Conv, C: Conv, F: Conv> Conv for PipeableCommand<V, S, C, F> {
    fn n(&self) -> N {
        match self {
            PipeableCommand::Simple(s) => s.n(),
            PipeableCommand::Compound(c) => c.n(),
            PipeableCommand::FunctionDef(v, b) => N::new("fn", v.s(), vec![b.n()]),
        }
    }
}
impl<V: Str, W: Conv, R: Conv> Conv for SimpleCommand<V, W, R> {
    fn n(&self) -> N {
        let v = self
            .redirects_or_env_vars
            .iter()
            .map(|x| match x {
                RedirectOrEnvVar::Redirect(r) => r.n(),
                RedirectOrEnvVar::EnvVar(v, w) => N::new("as", v.s(), w.iter().map(|w| w.n()).collect()),
            })
            .collect();
        let a = self
            .redirects_or_cmd_words
            .iter()
            .map(|x| match x {
                RedirectOrCmdWord::Redirect(r) => r.n(),
                RedirectOrCmdWord::CmdWord(w) => w.n(),
            })
            .collect();
        N::new("sc", "", vec![N::new("vars", "", v), N::new("args", "", a)])
    }
}
fn all<T: Conv>(t: &'static str, v: &[T]) -> N {
    N::new(t, "", v.iter().map(|x| x.n()).collect())
}
impl<V: Str, W: Conv, C: Conv, R: Conv> Conv for CompoundCommand<CompoundCommandKind<V, W, C>, R> {
    fn n(&self) -> N {
        use CompoundCommandKind::*;
        let (t, s, mut k): (&'static str, &str, Vec<N>) = match &self.kind {
            Brace(v) => ("brace", "", vec![all("grp", v)]),
            Subshell(v) => ("subshell", "", vec![all("grp", v)]),
            While(g) => ("while", "", vec![all("grp", &g.guard), all("grp", &g.body)]),
            Until(g) => ("until", "", vec![all("grp", &g.guard), all("grp", &g.body)]),
            If { conditionals, else_branch } => {
                let mut k: Vec<N> = conditionals
                    .iter()
                    .map(|g| N::new("gb", "", vec![all("grp", &g.guard), all("grp", &g.body)]))
                    .collect();
                if let Some(e) = else_branch {
                    k.push(N::new("else", "", vec![all("grp", e)]));
                }
                ("if", "", k)
            }
            For { var, words, body } => {
                let mut k = Vec::new();
                if let Some(w) = words {
                    k.push(all("in", w));
                }
                k.push(all("grp", body));
                ("for", var.s(), k)
            }
            Case { word, arms } => {
                let mut k = vec![word.n()];
                for a in arms {
                    k.push(N::new("arm", "", vec![all("pats", &a.patterns), all("grp", &a.body)]));
                }
                ("case", "", k)
            }
        };
        k.push(all("io", &self.io));
        N::new(t, s, k)
    }
}
impl<W: Conv> Conv for Redirect<W> {
    fn n(&self) -> N {
        use Redirect::*;
        let (t, f, w): (&'static str, _, _) = match self {
            Read(f, w) => ("r<", f, w),
            Write(f, w) => ("r>", f, w),
            ReadWrite(f, w) => ("r<>", f, w),
            Append(f, w) => ("r>>", f, w),
            Clobber(f, w) => ("r>|", f, w),
            Heredoc(f, w) => ("r<<", f, w),
            DupRead(f, w) => ("r<&", f, w),
            DupWrite(f, w) => ("r>&", f, w),
        };
        N::new(t, f.map_or(String::new(), |f| f.to_string()), vec![w.n()])
    }
}
impl<W: Conv> Conv for ComplexWord<W> {
    fn n(&self) -> N {
        match self {
            ComplexWord::Single(w) => N::new("w", "1", vec![w.n()]),
            ComplexWord::Concat(v) => all_w(v),
        }
    }
}
fn all_w<W: Conv>(v: &[W]) -> N {
    N::new("w", "n", v.iter().map(|x| x.n()).collect())
}
impl<L: Str, W: Conv> Conv for Word<L, W> {
    fn n(&self) -> N {
        match self {
            Word::Simple(w) => w.n(),
            Word::DoubleQuoted(v) => all("D", v),
            Word::SingleQuoted(s) => N::leaf("S", s.s()),
        }
    }
}
fn par<T: Str>(p: &Parameter<T>) -> String {
    use Parameter::*;
    param(&match p {
        At => At,
        Star => Star,
        Pound => Pound,
        Question => Question,
        Dash => Dash,
        Dollar => Dollar,
        Bang => Bang,
        Positional(n) => Positional(*n),
        Var(v) => Var(v.s().to_string()),
    })
}
impl<L: Str, T: Str, X: Conv> Conv for SimpleWord<L, Parameter<T>, X> {
    fn n(&self) -> N {
        use SimpleWord::*;
        match self {
            Literal(s) => N::leaf("L", s.s()),
            Escaped(s) => N::leaf("E", s.s()),
            Param(p) => N::leaf("P", par(p)),
            Subst(x) => x.n(),
            Star => N::leaf("G", "*"),
            Question => N::leaf("G", "?"),
            SquareOpen => N::leaf("G", "["),
            SquareClose => N::leaf("G", "]"),
            Tilde => N::leaf("G", "~"),
            Colon => N::leaf("G", ":"),
        }
    }
}
impl<T: Str, W: Conv, C: Conv> Conv for ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>> {
    fn n(&self) -> N {
        use ParameterSubstitution::*;
        let f = |t: &'static str, col: bool, p: &Parameter<T>, w: &Option<W>| {
            N::new(t, format!("{}{}", if col { ":" } else { "" }, par(p)), w.iter().map(|w| w.n()).collect())
        };
        match self {
            Command(v) => N::new("cs", "", vec![all("grp", v)]),
            Len(p) => N::leaf("len", par(p)),
            Arith(a) => N::new("ar", "", a.iter().map(|a| arith(&own(a))).collect()),
            Default(c, p, w) => f("def", *c, p, w),
            Assign(c, p, w) => f("asg", *c, p, w),
            Error(c, p, w) => f("err", *c, p, w),
            Alternative(c, p, w) => f("alt", *c, p, w),
            RemoveSmallestSuffix(p, w) => f("ss", false, p, w),
            RemoveLargestSuffix(p, w) => f("ls", false, p, w),
            RemoveSmallestPrefix(p, w) => f("sp", false, p, w),
            RemoveLargestPrefix(p, w) => f("lp", false, p, w),
        }
    }
}
/// The same expression with plain strings.
fn own<T: Str>(a: &Arithmetic<T>) -> Arithmetic<String> {
    use Arithmetic::*;
    let b = |x: &Arithmetic<T>| Box::new(own(x));
    let s = |x: &T| x.s().to_string();
    match a {
        Var(v) => Var(s(v)),
        Literal(i) => Literal(*i),
        Pow(x, y) => Pow(b(x), b(y)),
        PostIncr(v) => PostIncr(s(v)),
        PostDecr(v) => PostDecr(s(v)),
        PreIncr(v) => PreIncr(s(v)),
        PreDecr(v) => PreDecr(s(v)),
        UnaryPlus(x) => UnaryPlus(b(x)),
        UnaryMinus(x) => UnaryMinus(b(x)),
        LogicalNot(x) => LogicalNot(b(x)),
        BitwiseNot(x) => BitwiseNot(b(x)),
        Mult(x, y) => Mult(b(x), b(y)),
        Div(x, y) => Div(b(x), b(y)),
        Modulo(x, y) => Modulo(b(x), b(y)),
        Add(x, y) => Add(b(x), b(y)),
        Sub(x, y) => Sub(b(x), b(y)),
        ShiftLeft(x, y) => ShiftLeft(b(x), b(y)),
        ShiftRight(x, y) => ShiftRight(b(x), b(y)),
        Less(x, y) => Less(b(x), b(y)),
        LessEq(x, y) => LessEq(b(x), b(y)),
        Great(x, y) => Great(b(x), b(y)),
        GreatEq(x, y) => GreatEq(b(x), b(y)),
        Eq(x, y) => Eq(b(x), b(y)),
        NotEq(x, y) => NotEq(b(x), b(y)),
        BitwiseAnd(x, y) => BitwiseAnd(b(x), b(y)),
        BitwiseXor(x, y) => BitwiseXor(b(x), b(y)),
        BitwiseOr(x, y) => BitwiseOr(b(x), b(y)),
        LogicalAnd(x, y) => LogicalAnd(b(x), b(y)),
        LogicalOr(x, y) => LogicalOr(b(x), b(y)),
        Ternary(x, y, z) => Ternary(b(x), b(y), b(z)),
        Assign(v, x) => Assign(s(v), b(x)),
        Sequence(v) => Sequence(v.iter().map(own).collect()),
    }
}
