//! Writes every macro invocation of the bounded space, next to the value it must build.
use std::fmt::Write as _;

/// A term: how it is written in a macro, in BNF text, and as a value.
#[derive(Clone)]
struct T(String, String, String);

fn nt(n: &str) -> T {
    T(format!("<{n}>"), format!("<{n}>"), format!("N({n:?})"))
}
fn chr(c: char) -> T {
    T(format!("{c:?}"), format!("'{c}'"), format!("T({:?})", c.to_string()))
}
fn st(s: &str) -> T {
    let quoted = if s.contains('"') { format!("'{s}'") } else { format!("\"{s}\"") };
    T(format!("{s:?}"), quoted, format!("T({s:?})"))
}

type Alts = Vec<Vec<T>>;
type Prods = Vec<(String, Alts)>;

fn seqs<X: Clone>(of: &[X], lo: usize, hi: usize) -> Vec<Vec<X>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<X>> = vec![vec![]];
    for l in 0..=hi {
        if l >= lo {
            out.extend(cur.iter().cloned());
        }
        cur = cur.iter().flat_map(|p| of.iter().map(move |x| p.iter().cloned().chain([x.clone()]).collect())).collect();
    }
    out
}

fn join<X>(v: &[X], sep: &str, f: impl Fn(&X) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(sep)
}

struct Out {
    src: String,
    n: usize,
    fns: Vec<String>,
}

impl Out {
    fn case(&mut self, kind: &str, inv: String, text: String, value: String) {
        if self.n % 64 == 0 {
            if self.n > 0 {
                self.src.push_str("}\n");
            }
            let name = format!("cases_{}", self.n / 64);
            let _ = writeln!(self.src, "fn {name}(k: &mut Check) {{");
            self.fns.push(name);
        }
        self.n += 1;
        let _ = writeln!(self.src, "k.{kind}({:?}, {:?}, {inv}, &{value});", inv, text);
    }
    fn expr(&mut self, e: &[T]) {
        let inv = format!("bnf::expression!({})", join(e, " ", |t| t.0.clone()));
        self.case("expression", inv, join(e, " ", |t| t.1.clone()), format!("[{}]", join(e, ",", |t| t.2.clone())));
    }
    fn alts(a: &Alts, which: impl Fn(&T) -> String + Copy) -> String {
        join(a, " | ", |e| join(e, " ", which))
    }
    fn value(a: &Alts) -> String {
        format!("&[{}]", join(a, ",", |e| format!("&[{}][..]", join(e, ",", |t| t.2.clone()))))
    }
    /// The BNF text of the same productions; empty if BNF cannot spell them (empty alternatives).
    fn text(p: &[(String, Alts)]) -> String {
        if p.iter().any(|(_, a)| a.iter().any(|e| e.is_empty())) {
            return String::new();
        }
        join(p, "\n", |(l, a)| format!("<{l}> ::= {}", Self::alts(a, |t| t.1.clone())))
    }
    fn production(&mut self, lhs: &str, a: &Alts) {
        let inv = format!("bnf::production!(<{lhs}> ::= {})", Self::alts(a, |t| t.0.clone()));
        let text = Self::text(&[(lhs.to_string(), a.clone())]);
        self.case("production", inv, text, format!("({lhs:?}, {})", Self::value(a)));
    }
    fn grammar(&mut self, p: &Prods) {
        for end in ["", ";"] {
            let inv = format!(
                "bnf::grammar!({}{end})",
                join(p, "; ", |(l, a)| format!("<{l}> ::= {}", Self::alts(a, |t| t.0.clone())))
            );
            let text = Self::text(p);
            let value = format!("[{}]", join(p, ",", |(l, a)| format!("({l:?}, {} as &[&[V]])", Self::value(a))));
            self.case("grammar", inv, text, value);
        }
    }
}

fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    println!("cargo::rerun-if-env-changed=MACROS_TIER");
    let thorough = std::env::var("MACROS_TIER").is_ok_and(|t| t == "thorough");
    let mut o = Out { src: String::new(), n: 0, fns: vec![] };

    // terms
    for t in ["a", "dna_base", "A", "_x9", "r#type", "Self_"].iter().filter(|t| !t.starts_with("r#")) {
        o.case("term", format!("bnf::term!(<{t}>)"), format!("<{t}>"), nt(t).2);
        o.case("term", format!("bnf::term!({t})"), format!("'{t}'"), format!("T({t:?})"));
    }
    for s in ["", " ", "a", "xyz", "'", "\"", "\\", "\n", "é", "😀", ";", "<a>", "a|b", "::=", "{}", "#", "\t "] {
        let t = st(s);
        o.case("term", format!("bnf::term!({})", t.0), t.1.clone(), t.2.clone());
        if !s.contains('\\') {
            o.case("term", format!("bnf::term!(r#\"{s}\"#)"), t.1, t.2);
        }
    }
    for c in ['a', '0', '"', '\\', '\n', 'é', '😀', ' ', ';', '|', '<'] {
        let t = chr(c);
        o.case("term", format!("bnf::term!({})", t.0), t.1, t.2);
    }

    // expressions: every sequence
    let t4 = [nt("a"), nt("b"), chr('x'), st("yz")];
    for e in seqs(&t4, 1, if thorough { 5 } else { 4 }) {
        o.expr(&e);
    }
    for n in 5..=(if thorough { 60 } else { 24 }) {
        o.expr(&(0..n).map(|i| if i % 3 == 0 { nt(&format!("n{i}")) } else { st(&format!("t{i}")) }).collect::<Vec<_>>());
    }

    // productions: every right-hand side
    let exprs = seqs(&[nt("a"), chr('x')], 1, 2);
    for a in seqs(&exprs, 1, 3) {
        o.production("a", &a);
    }
    let distinct = seqs(&[chr('x'), chr('y'), nt("a")], 1, 1);
    for a in seqs(&distinct, 4, if thorough { 6 } else { 4 }) {
        o.production("s", &a);
    }
    for e in seqs(&t4, 3, 3) {
        o.production("s", &vec![e.clone()]);
        o.production("s", &vec![e.clone(), vec![chr('q')], e]);
    }
    for n in 5..=(if thorough { 40 } else { 20 }) {
        o.production("many", &(0..n).map(|i| vec![st(&format!("t{i}"))]).collect());
        o.production("many", &(0..n).map(|i| vec![nt(&format!("n{i}")), st(&format!("t{i}"))]).collect());
    }

    // empty alternatives: nothing before, between or after the bars
    let pieces: Vec<Vec<T>> = vec![vec![], vec![chr('x')], vec![nt("a"), st("")], vec![st("")]];
    let gaps = seqs(&pieces, 1, if thorough { 4 } else { 3 });
    for a in gaps.iter().filter(|a| a.iter().any(|e| e.is_empty())) {
        o.production("s", a);
        o.grammar(&vec![("s".into(), a.clone())]);
        if a.len() < 3 {
            o.grammar(&vec![("s".into(), a.clone()), ("a".into(), vec![vec![chr('x')]])]);
            o.grammar(&vec![("a".into(), vec![vec![chr('x')], vec![]]), ("s".into(), a.clone()), ("b".into(), vec![vec![]])]);
        }
    }
    // names and literals with unusual spellings, everywhere a term may stand
    let odd: Vec<T> = [nt("é"), nt("Übung"), nt("_"), nt("A"), nt("a"), nt("self_"), nt("x1")]
        .into_iter()
        .filter(|t| t.0 != "<_>")
        .chain(["", " ", "  x ", "\\n", "\\", "it's", "<a>", "| ::= ;", "é", "a", "A", "%x41", "{}", "{0}", "\u{feff}", "\0"].iter().map(|s| st(s)))
        .chain([' ', 'é', '\\', '|', 'A'].map(chr))
        .chain(["type", "fn", "self", "crate", "exprs", "prods", "expressions", "Term", "Vec", "String", "term", "vec"].map(nt))
        .chain(["1", "42", "0", "true"].map(|s| T(s.into(), format!("'{s}'"), format!("T({s:?})"))))
        .chain([("1u8", "1"), ("0x10", "16"), ("1.5", "1.5"), ("1_000", "1000"), ("false", "false"), ("-1", "-1"), ("\"a\\u{e9}\\tb\"", "a\u{e9}\tb"), ("r\"a\\n\"", "a\\n"), ("'\\u{41}'", "A"), ("\"a\\\n   b\"", "ab")].map(|(l, s)| T(l.into(), format!("'{s}'"), format!("T({s:?})"))))
        .collect();
    for e in seqs(&odd, 1, 2) {
        o.expr(&e);
    }
    for t in &odd {
        o.case("term", format!("bnf::term!({})", t.0), t.1.clone(), t.2.clone());
        o.production("s", &vec![vec![t.clone()], vec![chr('x'), t.clone()], vec![t.clone(), t.clone()]]);
        o.grammar(&vec![("s".into(), vec![vec![t.clone()], vec![t.clone(), chr('x')]]), ("a".into(), vec![vec![chr('x'), t.clone()]])]);
    }

    // grammars: every sequence of productions out of these
    let shapes: Vec<Alts> = vec![
        vec![vec![chr('x')]],
        vec![vec![nt("a")], vec![st("yz")]],
        vec![vec![chr('x'), nt("b")]],
        vec![vec![chr('x')], vec![nt("a")], vec![chr('y'), chr('x')]],
        vec![vec![nt("b"), chr('x')], vec![chr('x'), nt("b")]],
        vec![vec![chr('x')], vec![chr('x')]],
    ];
    let all: Prods = ["a", "b"].iter().flat_map(|l| shapes.iter().map(|s| (l.to_string(), s.clone()))).collect();
    for p in seqs(&all, 1, 2) {
        o.grammar(&p);
    }
    let few: Prods = ["a", "b"].iter().flat_map(|l| shapes[..3].iter().map(|s| (l.to_string(), s.clone()))).collect();
    for p in seqs(if thorough { &all[..8] } else { &few }, 3, 3) {
        o.grammar(&p);
    }
    let two: Prods = vec![("a".into(), shapes[1].clone()), ("b".into(), shapes[0].clone()), ("c".into(), shapes[2].clone())];
    for p in seqs(&two, 4, if thorough { 5 } else { 4 }) {
        o.grammar(&p);
    }
    for n in 5..=(if thorough { 30 } else { 16 }) {
        o.grammar(&(0..n).map(|i| (format!("n{i}"), vec![vec![st(&format!("t{i}"))]])).collect());
        o.grammar(&(0..n).map(|i| (format!("n{i}"), vec![vec![nt(&format!("n{}", (i + 1) % n))], vec![chr('x'), chr('y')]])).collect());
        o.grammar(&(0..n).map(|i| ("same".to_string(), vec![vec![st(&format!("t{i}")), nt("same")], vec![st("")]])).collect());
        o.grammar(&vec![
            ("first".into(), (0..n).map(|i| vec![st(&format!("t{i}"))]).collect()),
            ("second".into(), vec![(0..n).map(|i| st(&format!("u{i}"))).collect()]),
        ]);
    }
    o.src.push_str("}\npub fn all(k: &mut Check) {\n");
    for f in &o.fns {
        let _ = writeln!(o.src, "{f}(k);");
    }
    o.src.push_str("}\n");
    std::fs::write(format!("{}/cases.rs", std::env::var("OUT_DIR").unwrap()), &o.src).unwrap();
}
