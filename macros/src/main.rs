//! C23: every macro invocation of the bounded space builds the value that its parts build, and
//! that reading the same text gives.
#![recursion_limit = "2048"]
use bnf::{Expression, Grammar, Production, Term};

#[derive(Clone, Copy)]
enum V {
    T(&'static str),
    N(&'static str),
}
use V::{N, T};

fn term(v: &V) -> Term {
    match v {
        T(s) => Term::Terminal(s.to_string()),
        N(s) => Term::Nonterminal(s.to_string()),
    }
}

#[derive(Default)]
struct Check {
    terms: u64,
    expressions: u64,
    productions: u64,
    grammars: u64,
    texts: u64,
    failed: Option<String>,
}

fn terms(e: &Expression) -> Vec<Term> {
    e.terms_iter().cloned().collect()
}
fn parts(p: &Production) -> (Term, Vec<Vec<Term>>) {
    (p.lhs.clone(), p.rhs_iter().map(terms).collect())
}

impl Check {
    fn same<X: PartialEq + std::fmt::Debug>(&mut self, inv: &str, how: &str, got: &X, want: &X) {
        if got != want && self.failed.is_none() {
            self.failed = Some(format!("{inv} built {got:?}, {how} {want:?}"));
        }
    }
    /// The same text, read. Texts with both kinds of quotes or with line ends inside quotes are
    /// not compared; neither are empty ones (empty alternatives have no text).
    fn read<X: std::str::FromStr>(&mut self, inv: &str, text: &str) -> Option<X> {
        if text.is_empty() {
            return None;
        }
        match text.parse::<X>() {
            Ok(v) => {
                self.texts += 1;
                Some(v)
            }
            Err(_) => {
                if self.failed.is_none() {
                    self.failed = Some(format!("{inv}: the text {text:?} is not readable"));
                }
                None
            }
        }
    }
    fn term(&mut self, inv: &str, text: &str, got: Term, want: &V) {
        self.terms += 1;
        self.same(inv, "the parts are", &got, &term(want));
        if let Some(t) = self.read::<Term>(inv, text) {
            self.same(inv, "the same text gives", &got, &t);
        }
    }
    fn expression(&mut self, inv: &str, text: &str, got: Expression, want: &[V]) {
        self.expressions += 1;
        let w: Vec<Term> = want.iter().map(term).collect();
        self.same(inv, "the parts are", &terms(&got), &w);
        self.same(inv, "from_parts gives", &got, &Expression::from_parts(w));
        if let Some(e) = self.read::<Expression>(inv, text) {
            self.same(inv, "the same text gives", &terms(&got), &terms(&e));
        }
    }
    fn production(&mut self, inv: &str, text: &str, got: Production, want: &(&str, &[&[V]])) {
        self.productions += 1;
        let w = (Term::Nonterminal(want.0.to_string()), want.1.iter().map(|e| e.iter().map(term).collect()).collect::<Vec<Vec<Term>>>());
        self.same(inv, "the parts are", &parts(&got), &w);
        let built = Production::from_parts(w.0, w.1.into_iter().map(Expression::from_parts).collect());
        self.same(inv, "from_parts gives", &got, &built);
        if let Some(p) = self.read::<Production>(inv, text) {
            self.same(inv, "the same text gives", &parts(&got), &parts(&p));
        }
    }
    fn grammar(&mut self, inv: &str, text: &str, got: Grammar, want: &[(&str, &[&[V]])]) {
        self.grammars += 1;
        let w: Vec<(Term, Vec<Vec<Term>>)> = want
            .iter()
            .map(|p| (Term::Nonterminal(p.0.to_string()), p.1.iter().map(|e| e.iter().map(term).collect()).collect()))
            .collect();
        let all = |g: &Grammar| g.productions_iter().map(parts).collect::<Vec<_>>();
        self.same(inv, "the parts are", &all(&got), &w);
        let built = Grammar::from_parts(
            w.into_iter()
                .map(|(l, a)| Production::from_parts(l, a.into_iter().map(Expression::from_parts).collect()))
                .collect(),
        );
        self.same(inv, "from_parts gives", &got, &built);
        if let Some(g) = self.read::<Grammar>(inv, text) {
            self.same(inv, "the same text gives", &all(&got), &all(&g));
        }
    }
}

/// The invocations stand where nothing of the library is in scope, and where other things have
/// the names of its types and macros.
mod cases {
    use super::{Check, V, V::{N, T}};
    #[allow(dead_code)]
    struct Term;
    #[allow(dead_code)]
    struct Expression;
    #[allow(dead_code)]
    struct Production;
    #[allow(dead_code)]
    struct Grammar;
    #[allow(unused_macros)]
    macro_rules! term { ($($t:tt)*) => { compile_error!("not the library's term!") }; }
    #[allow(unused_macros)]
    macro_rules! expression { ($($t:tt)*) => { compile_error!("not the library's expression!") }; }
    #[allow(unused_macros)]
    macro_rules! production { ($($t:tt)*) => { compile_error!("not the library's production!") }; }
    #[allow(unused_macros)]
    macro_rules! grammar { ($($t:tt)*) => { compile_error!("not the library's grammar!") }; }
    include!(concat!(env!("OUT_DIR"), "/cases.rs"));
}

/// Invocations written by a macro of the user.
fn through_macros(k: &mut Check) {
    macro_rules! via {
        ($n:ident, $m:ident, $l:literal) => {
            (
                bnf::term!(<$n>),
                bnf::term!($l),
                bnf::expression!(<$n> $l <$m>),
                bnf::production!(<$n> ::= $l <$m> | <$n> | $l),
                bnf::grammar!(<$n> ::= $l | <$m>; <$m> ::= $l <$n> $l),
            )
        };
    }
    macro_rules! check {
        ($n:ident, $m:ident, $l:literal, $s:expr) => {{
            let (t, l, e, p, g) = via!($n, $m, $l);
            let (n, m): (&'static str, &'static str) = (stringify!($n), stringify!($m));
            k.term("via a macro: term!", "", t, &N(n));
            k.term("via a macro: term!", "", l, &T($s));
            k.expression("via a macro: expression!", "", e, &[N(n), T($s), N(m)]);
            k.production("via a macro: production!", "", p, &(n, &[&[T($s), N(m)], &[N(n)], &[T($s)]]));
            k.grammar("via a macro: grammar!", "", g, &[(n, &[&[T($s)], &[N(m)]]), (m, &[&[T($s), N(n), T($s)]])]);
        }};
    }
    check!(a, b, "x", "x");
    check!(exprs, prods, 'y', "y");
    check!(expressions, last_exprs, "", "");
    check!(type, self, 7, "7");
    check!(a, a, "a", "a");
}

fn main() {
    let mut k = Check::default();
    k.same("bnf::grammar!()", "from_parts gives", &bnf::grammar!(), &Grammar::from_parts(vec![]));
    cases::all(&mut k);
    through_macros(&mut k);
    println!(
        "{{\"terms\":{},\"expressions\":{},\"productions\":{},\"grammars\":{},\"texts\":{}}}",
        k.terms, k.expressions, k.productions, k.grammars + 1, k.texts
    );
    if let Some(f) = k.failed {
        println!("{f}");
        std::process::exit(1);
    }
}
