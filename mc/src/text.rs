//! C08-C11, C25: grammar text, checked against an independent hand-written reader.
use crate::odd::*;
use crate::refg::*;
use crate::run::*;
use crate::uni;
use bnf::{Expression, Grammar, Production, Term};
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

// ------------------------------------------------------------------ the reference reader

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Bnf,
    Abnf,
    Curly,
    Guillemets,
    Colon,
}

/// Notations a user of the library may define (`Format` is public).
pub struct CurlyFormat;
impl bnf::Format for CurlyFormat {
    fn nonterminal_delimiter() -> Option<(char, char)> {
        Some(('{', '}'))
    }
    fn production_separator() -> &'static str {
        "->"
    }
    fn alternative_separator() -> char {
        ','
    }
}
pub struct GuillemetsFormat;
impl bnf::Format for GuillemetsFormat {
    fn nonterminal_delimiter() -> Option<(char, char)> {
        Some(('«', '»'))
    }
    fn production_separator() -> &'static str {
        "⇒"
    }
    fn alternative_separator() -> char {
        '∨'
    }
    fn production_start_char() -> Option<char> {
        Some('«')
    }
}
pub struct ColonFormat;
impl bnf::Format for ColonFormat {
    fn nonterminal_delimiter() -> Option<(char, char)> {
        None
    }
    fn production_separator() -> &'static str {
        ":"
    }
    fn alternative_separator() -> char {
        '!'
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pt {
    T(String),
    N(String),
    G(Vec<Vec<Pt>>),
    O(Vec<Vec<Pt>>),
}
pub type Alts = Vec<Vec<Pt>>;
pub type Ast = Vec<(String, Alts)>;

impl Fmt {
    fn sep(self) -> &'static str {
        match self {
            Fmt::Bnf => "::=",
            Fmt::Abnf => "=",
            Fmt::Curly => "->",
            Fmt::Guillemets => "⇒",
            Fmt::Colon => ":",
        }
    }
    fn alt(self) -> char {
        match self {
            Fmt::Bnf => '|',
            Fmt::Abnf => '/',
            Fmt::Curly => ',',
            Fmt::Guillemets => '∨',
            Fmt::Colon => '!',
        }
    }
    fn delim(self) -> Option<(char, char)> {
        match self {
            Fmt::Bnf => Some(('<', '>')),
            Fmt::Curly => Some(('{', '}')),
            Fmt::Guillemets => Some(('«', '»')),
            Fmt::Abnf | Fmt::Colon => None,
        }
    }
}

pub struct Rd<'a> {
    s: &'a str,
    f: Fmt,
    groups: bool,
}

impl<'a> Rd<'a> {
    fn rest(&self, p: usize) -> &'a str {
        &self.s[p..]
    }
    /// whitespace and `;` comments (a comment ends before the next CR or LF)
    pub fn ws(&self, mut p: usize) -> usize {
        loop {
            match self.rest(p).chars().next() {
                Some(c) if c.is_whitespace() => p += c.len_utf8(),
                Some(';') => {
                    while let Some(c) = self.rest(p).chars().next() {
                        if c == '\n' || c == '\r' {
                            break;
                        }
                        p += c.len_utf8();
                    }
                }
                _ => return p,
            }
        }
    }
    fn sep(&self) -> &'static str {
        self.f.sep()
    }
    fn alt(&self) -> char {
        self.f.alt()
    }
    fn name(&self, p: usize) -> Option<(String, usize)> {
        let r = self.rest(p);
        match self.f.delim() {
            Some((open, close)) => {
                let inner = r.strip_prefix(open)?;
                let end = inner.find(close)?;
                Some((inner[..end].to_string(), self.ws(p + open.len_utf8() + end + close.len_utf8())))
            }
            None => {
                if !r.chars().next()?.is_alphabetic() {
                    return None;
                }
                let end = r.find(|c: char| c.is_whitespace() || c == ')' || c == ']').unwrap_or(r.len());
                Some((r[..end].to_string(), self.ws(p + end)))
            }
        }
    }
    fn quoted(&self, p: usize) -> Option<(String, usize)> {
        let r = self.rest(p);
        let q = r.chars().next().filter(|c| *c == '"' || *c == '\'')?;
        let inner = &r[1..];
        let end = inner.find(q)?;
        Some((inner[..end].to_string(), self.ws(p + 1 + end + 1)))
    }
    fn bracketed(&self, p: usize, open: char, close: char) -> Option<(Alts, usize)> {
        if !self.rest(p).starts_with(open) {
            return None;
        }
        let (alts, p) = self.alts(self.ws(p + 1))?;
        if !self.rest(p).starts_with(close) {
            return None;
        }
        Some((alts, self.ws(p + 1)))
    }
    fn term(&self, p: usize) -> Option<(Pt, usize)> {
        if let Some((t, p)) = self.quoted(p) {
            return Some((Pt::T(t), p));
        }
        if let Some((n, p)) = self.name(p) {
            return Some((Pt::N(n), p));
        }
        if self.groups {
            if let Some((a, p)) = self.bracketed(p, '(', ')') {
                return Some((Pt::G(a), p));
            }
            if let Some((a, p)) = self.bracketed(p, '[', ']') {
                return Some((Pt::O(a), p));
            }
        }
        None
    }
    /// one or more terms; a term followed by the definition sign belongs to the next production
    fn seq(&self, mut p: usize) -> Option<(Vec<Pt>, usize)> {
        let mut out = vec![];
        while let Some((t, q)) = self.term(p) {
            if self.rest(q).starts_with(self.sep()) {
                break;
            }
            out.push(t);
            p = q;
        }
        if out.is_empty() { None } else { Some((out, p)) }
    }
    fn alts(&self, p: usize) -> Option<(Alts, usize)> {
        let (first, mut p) = self.seq(p)?;
        let mut out = vec![first];
        while self.rest(p).starts_with(self.alt()) {
            let (e, q) = self.seq(self.ws(p + self.alt().len_utf8()))?;
            out.push(e);
            p = q;
        }
        Some((out, p))
    }
    fn lhs(&self, p: usize) -> Option<(String, usize)> {
        let (n, mut p) = self.name(p)?;
        if !self.rest(p).starts_with(self.sep()) {
            return None;
        }
        p += self.sep().len();
        if self.rest(p).starts_with(self.alt()) {
            p += self.alt().len_utf8();
        }
        Some((n, self.ws(p)))
    }
    fn grammar(&self) -> Option<Ast> {
        let mut out = vec![];
        let mut p = self.ws(0);
        loop {
            let (n, q) = self.lhs(p)?;
            let (a, q) = self.alts(q)?;
            out.push((n, a));
            p = q;
            if p == self.s.len() {
                return Some(out);
            }
            self.lhs(p)?;
        }
    }
}

pub fn read_grammar(s: &str, f: Fmt) -> Option<Ast> {
    Rd { s, f, groups: true }.grammar()
}
pub fn detect(s: &str) -> Fmt {
    let r = Rd { s, f: Fmt::Bnf, groups: true };
    if s[r.ws(0)..].starts_with('<') { Fmt::Bnf } else { Fmt::Abnf }
}
fn plain(t: &Pt) -> Term {
    match t {
        Pt::T(s) => Term::Terminal(s.clone()),
        Pt::N(s) => Term::Nonterminal(s.clone()),
        _ => unreachable!("plain reader"),
    }
}
pub fn read_term(s: &str) -> Option<Term> {
    let r = Rd { s, f: Fmt::Bnf, groups: false };
    let (t, p) = r.term(0)?;
    (p == s.len()).then(|| plain(&t))
}
pub fn read_expression(s: &str) -> Option<Vec<Term>> {
    let r = Rd { s, f: Fmt::Bnf, groups: false };
    let (t, p) = r.seq(0)?;
    (p == s.len()).then(|| t.iter().map(plain).collect())
}
pub fn read_production(s: &str) -> Option<(String, Vec<Vec<Term>>)> {
    let r = Rd { s, f: Fmt::Bnf, groups: false };
    let (n, p) = r.lhs(0)?;
    let (a, p) = r.alts(p)?;
    (p == s.len()).then(|| (n, a.iter().map(|e| e.iter().map(plain).collect()).collect()))
}

// ------------------------------------------------------------------ comparing with the library

fn names_in(alts: &Alts, out: &mut BTreeSet<String>) {
    for e in alts {
        for t in e {
            match t {
                Pt::N(n) => {
                    out.insert(n.clone());
                }
                Pt::G(a) | Pt::O(a) => names_in(a, out),
                Pt::T(_) => {}
            }
        }
    }
}
pub fn all_names(ast: &Ast) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for (l, a) in ast {
        out.insert(l.clone());
        names_in(a, &mut out);
    }
    out
}

/// Does the library's grammar spell the text's structure? Names introduced for groups and
/// optionals may be anything fresh; groups that read the same may share one.
pub fn same_structure(ast: &Ast, g: &Grammar) -> Result<(), String> {
    let prods: Vec<&Production> = g.productions_iter().collect();
    if prods.len() < ast.len() {
        return Err(format!("{} productions, text has {}", prods.len(), ast.len()));
    }
    let user = all_names(ast);
    let mut fresh: HashMap<&str, &Production> = HashMap::new();
    for p in &prods[ast.len()..] {
        match &p.lhs {
            Term::Nonterminal(n) => {
                if user.contains(n) {
                    return Err(format!("extra production for <{n}>, a name the text uses"));
                }
                if fresh.insert(n, p).is_some() {
                    return Err(format!("introduced <{n}> twice"));
                }
            }
            Term::Terminal(t) => return Err(format!("production for terminal {t:?}")),
        }
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    fn seq(terms: &[Pt], e: &Expression, fresh: &HashMap<&str, &Production>, used: &mut BTreeSet<String>) -> Result<(), String> {
        let ts: Vec<&Term> = e.terms_iter().collect();
        if ts.len() != terms.len() {
            return Err(format!("expression {e} has {} terms, text has {}", ts.len(), terms.len()));
        }
        for (w, t) in terms.iter().zip(ts) {
            match (w, t) {
                (Pt::T(a), Term::Terminal(b)) if a == b => {}
                (Pt::N(a), Term::Nonterminal(b)) if a == b => {}
                (Pt::G(a), Term::Nonterminal(n)) => {
                    let p = fresh.get(n.as_str()).ok_or_else(|| format!("group became <{n}>, which is not introduced"))?;
                    used.insert(n.clone());
                    let es: Vec<&Expression> = p.rhs_iter().collect();
                    alts(a, &es, fresh, used)?;
                }
                (Pt::O(a), Term::Nonterminal(n)) => {
                    let p = fresh.get(n.as_str()).ok_or_else(|| format!("optional became <{n}>, which is not introduced"))?;
                    used.insert(n.clone());
                    let mut es: Vec<&Expression> = p.rhs_iter().collect();
                    // one of the alternatives (wherever it is listed) is the empty one
                    let empty = es
                        .iter()
                        .rposition(|e| e.terms_iter().all(|t| *t == Term::Terminal(String::new())) && e.terms_iter().count() <= 1)
                        .ok_or_else(|| format!("optional <{n}> has no empty alternative"))?;
                    es.remove(empty);
                    alts(a, &es, fresh, used)?;
                }
                _ => return Err(format!("term {t}, text has {w:?}")),
            }
        }
        Ok(())
    }
    fn alts(a: &Alts, es: &[&Expression], fresh: &HashMap<&str, &Production>, used: &mut BTreeSet<String>) -> Result<(), String> {
        if es.len() != a.len() {
            return Err(format!("{} alternatives, text has {}", es.len(), a.len()));
        }
        for (w, e) in a.iter().zip(es) {
            seq(w, e, fresh, used)?;
        }
        Ok(())
    }
    for ((l, a), p) in ast.iter().zip(&prods) {
        if p.lhs != Term::Nonterminal(l.clone()) {
            return Err(format!("left-hand side {}, text has <{l}>", p.lhs));
        }
        let es: Vec<&Expression> = p.rhs_iter().collect();
        alts(a, &es, &fresh, &mut used)?;
    }
    if used.len() != fresh.len() {
        return Err("an introduced production is not used".to_string());
    }
    Ok(())
}

fn check_text(text: &str, entries: u8, cx: &mut Cx) -> Res {
    cx.states += 1;
    let fmts: [(u8, &str, Fmt); 6] = [
        (1, "str::parse", detect(text)),
        (2, "parse_from::<BNF>", Fmt::Bnf),
        (4, "parse_from::<ABNF>", Fmt::Abnf),
        (8, "parse_from a {}-> notation", Fmt::Curly),
        (16, "parse_from a «»⇒ notation", Fmt::Guillemets),
        (32, "parse_from a : notation", Fmt::Colon),
    ];
    let mut refs: [Option<Option<Ast>>; 5] = [None, None, None, None, None];
    for (bit, name, f) in fmts {
        if entries & bit == 0 {
            continue;
        }
        let want = refs[f as usize].get_or_insert_with(|| read_grammar(text, f));
        let got = match bit {
            1 => text.parse::<Grammar>(),
            2 => Grammar::parse_from::<bnf::BNF>(text),
            8 => Grammar::parse_from::<CurlyFormat>(text),
            16 => Grammar::parse_from::<GuillemetsFormat>(text),
            32 => Grammar::parse_from::<ColonFormat>(text),
            _ => Grammar::parse_from::<bnf::ABNF>(text),
        };
        cx.transitions += 1;
        match (want, got) {
            (None, Err(bnf::Error::ParseError(_))) => {}
            (None, Err(e)) => return Err(format!("{name} of {text:?}: error of the wrong kind: {e:?}")),
            (None, Ok(g)) => return Err(format!("{name} accepts malformed {text:?} as {g}")),
            (Some(w), Err(e)) => return Err(format!("{name} rejects well-formed {text:?} ({w:?}): {e}")),
            (Some(w), Ok(g)) => {
                cx.bump("accepted_texts", 1);
                same_structure(w, &g).map_err(|e| format!("{name} of {text:?} gives {g:?}: {e}"))?;
                cx.sample(|| format!("{text:?} accepted with {} productions", w.len()));
            }
        }
        cx.traces += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

const BNF_TOKENS: [&str; 12] = ["<a>", "::=", "|", "'x'", "\"y;\"", "(", ")", "[", "]", "<b c>", ";c\n", "''"];
const ABNF_TOKENS: [&str; 12] = ["a", "=", "/", "'x'", "\"y;\"", "(", ")", "[", "]", "b-1", ";c\n", "''"];

const CURLY_TOKENS: [&str; 14] = ["{a}", "->", ",", "'x'", "\"y;\"", "(", ")", "[", "]", "{b c}", ";c\n", "''", "<", "-"];
const GUILL_TOKENS: [&str; 14] = ["«a»", "⇒", "∨", "'x'", "\"y;\"", "(", ")", "[", "]", "«b c»", ";c\n", "''", "<a>", "|"];
const COLON_TOKENS: [&str; 14] = ["a", ":", "!", "'x'", "\"y;\"", "(", ")", "[", "]", "b-1", ";c\n", "''", "<a>", "="];

const CHARS: [&str; 16] = ["<", ">", "a", "b", ":", "=", "|", "/", "'", "\"", "(", ")", "[", "]", ";", " "];
const CHARS2: [&str; 20] =
    ["<", ">", "a", ":", "=", "|", "/", "'", "\"", "(", ")", "[", "]", ";", " ", "\n", "\r", "é", "\u{3000}", "0"];

fn base_texts() -> Vec<&'static str> {
    vec![
        "<a> ::= 'x'",
        "<a> ::= 'x' | <b>\n<b> ::= \"y\" <a>",
        "<a> ::= ('x' | <b>) [<c> 'z'] ;note\n<b>::='y'\n<c>::=['q']",
        "a = 'x'",
        "a = 'x' / b\nb = \"y\" a",
        "a = ('x' / b) [c 'z'] ;note\nb ='y'\nc = ['q']",
        "<a> ::= [('x')]\n;tail",
        "<a>::=<b><c>|''\n<b>::=<a>\n<c>::=\"'\"",
        "a = b\na =/ 'c'",
        " ;c\n<a> ::= 'x' 'y'\n\n<b> ::= <a>;",
    ]
}

/// Every Unicode character, `per` at a time.
fn every_char(i: u64, per: u64) -> impl Iterator<Item = char> {
    (i * per..(i + 1) * per).filter_map(|c| char::from_u32(c as u32))
}

/// All texts one edit away: delete, replace, insert, transpose.
fn edits(s: &str, alphabet: &[&str]) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    for i in 0..=cs.len() {
        for a in alphabet {
            let mut t: String = cs[..i].iter().collect();
            t.push_str(a);
            t.extend(&cs[i..]);
            out.push(t);
            if i < cs.len() {
                let mut t: String = cs[..i].iter().collect();
                t.push_str(a);
                t.extend(&cs[i + 1..]);
                out.push(t);
            }
        }
        if i < cs.len() {
            let mut t: String = cs[..i].iter().collect();
            t.extend(&cs[i + 1..]);
            out.push(t);
        }
        if i + 1 < cs.len() {
            let mut d = cs.clone();
            d.swap(i, i + 1);
            out.push(d.into_iter().collect());
        }
    }
    for i in 0..=cs.len() {
        out.push(cs[..i].iter().collect());
        out.push(cs[i..].iter().collect());
    }
    out
}

fn token_stage(name: &'static str, prefix: &'static str, tokens: &'static [&'static str], hi: u32, entries: u8) -> Stage {
    let seqs = Seqs { radix: tokens.len() as u64, lo: 0, hi };
    let bounds = format!("{prefix:?} followed by every sequence of at most {hi} of the tokens {tokens:?}, spaced and unspaced");
    stage(name, bounds, seqs.count(), move |i, cx| {
        let toks = seqs.get(i);
        let spaced: String = toks.iter().map(|k| format!("{} ", tokens[*k])).collect();
        let tight: String = toks.iter().map(|k| tokens[*k]).collect();
        check_text(&format!("{prefix}{spaced}"), entries, cx)?;
        check_text(&format!("{prefix}{tight}"), entries, cx)
    })
}

fn char_stage(name: &'static str, prefix: &'static str, chars: &'static [&'static str], hi: u32, entries: u8) -> Stage {
    let seqs = Seqs { radix: chars.len() as u64, lo: 0, hi };
    let bounds = format!("{prefix:?} followed by every string of at most {hi} of {} characters {chars:?}", chars.len());
    stage(name, bounds, seqs.count(), move |i, cx| {
        let s: String = seqs.get(i).into_iter().map(|k| chars[k]).collect();
        check_text(&format!("{prefix}{s}"), entries, cx)
    })
}

/// Texts that scale one dimension; both notations.
pub fn scaled_texts(dense: usize, max: usize) -> Vec<String> {
    let mut out = vec![];
    for n in sizes(dense, max) {
        for f in [Fmt::Bnf, Fmt::Abnf] {
            let nt = |s: &str| f.delim().map_or(s.to_string(), |(o, c)| format!("{o}{s}{c}"));
            let sep = f.sep();
            let bar = format!(" {} ", f.alt());
            let bar = bar.as_str();
            // many productions
            out.push((0..n).map(|i| format!("{} {sep} 't{i}'\n", nt(&format!("n{i}")))).collect());
            // many alternatives / terms
            let ts: Vec<String> = (0..n).map(|i| if i % 3 == 2 { nt(&format!("n{i}")) } else { format!("'t{i}'") }).collect();
            out.push(format!("{} {sep} {}", nt("a"), ts.join(bar)));
            out.push(format!("{} {sep} {}", nt("a"), ts.join(" ")));
            // the same inside a group and an optional
            out.push(format!("{} {sep} ({})", nt("a"), ts.join(bar)));
            out.push(format!("{} {sep} [{}] 'z'", nt("a"), ts.join(bar)));
            // many groups in a row
            let gs: Vec<String> = (0..n).map(|i| if i % 2 == 0 { format!("({})", ts[i]) } else { format!("[{}]", ts[i]) }).collect();
            out.push(format!("{} {sep} {}\n{} {sep} ('w')", nt("a"), gs.join(" "), nt("b")));
            out.push(format!("{} {sep} {}", nt("a"), gs.join(bar)));
            // deep nesting, closed and unclosed
            let (mut o, mut c) = (String::new(), String::new());
            for i in 0..n {
                o.push(if i % 3 == 1 { '[' } else { '(' });
                c.insert(0, if i % 3 == 1 { ']' } else { ')' });
            }
            out.push(format!("{} {sep} {o}'x'{c}", nt("a")));
            out.push(format!("{} {sep} {o}'x'{}", nt("a"), &c[1..]));
            out.push(format!("{} {sep} {o}'x'{c})", nt("a")));
            // runs of one bracket, alone, spaced, in the middle and with alternatives on the way
            for (o, c) in [("(", ")"), ("[", "]"), ("( ", " )"), ("[(", ")]"), ("('y' ", ")"), ("[", " 'y']")] {
                let (os, cs) = (o.repeat(n), c.repeat(n));
                out.push(format!("{} {sep} {os}'x'{cs}", nt("a")));
                out.push(format!("{} {sep} 'p' {os}'x'{cs} 'q'{bar}{os}'y'{cs}", nt("a")));
                out.push(format!("{} {sep} {os}'x'{}", nt("a"), c.repeat(n - 1)));
                out.push(format!("{} {sep} {}'x'{cs}", nt("a"), o.repeat(n - 1)));
                out.push(format!("{} {sep} {os}{cs}", nt("a")));
            }
            // long names and terminals, long comments, much white space, many blank lines
            let long: String = (0..n).map(|i| char::from_u32(0x61 + (i % 26) as u32).unwrap()).collect();
            out.push(format!("{} {sep} '{long}' \"{long}\" {}", nt(&long), nt(&format!("{long}é"))));
            out.push(format!(";{long}\n{}{} {sep}{}'x'{};{long}\n", "\n".repeat(n), nt("a"), " ".repeat(n), "\t".repeat(n)));
            out.push(format!("{}{} {sep} 'x'", ";c\n".repeat(n), nt("a")));
            // trailing separators are malformed
            out.push(format!("{} {sep} {}{bar}", nt("a"), ts.join(bar)));
        }
    }
    out
}

pub fn c08(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let scaled = Arc::new(scaled_texts(tier.pick(60, 150), tier.pick(260, 520)));
    out.push(stage("scaled-texts", format!("one dimension scaled, every size up to {} and around round sizes up to {}", tier.pick(60, 150), tier.pick(260, 520)), scaled.len() as u64, move |i, cx| {
        check_text(&scaled[i as usize], 7, cx)
    }));
    out.push(token_stage("bnf-tokens", "<a> ::= ", &BNF_TOKENS, tier.pick(6, 7), 3));
    out.push(token_stage("abnf-tokens", "a = ", &ABNF_TOKENS, tier.pick(6, 7), 5));
    out.push(token_stage("bnf-free-tokens", "", &BNF_TOKENS, tier.pick(5, 6), 7));
    out.push(token_stage("abnf-free-tokens", "", &ABNF_TOKENS, tier.pick(5, 6), 7));
    out.push(token_stage("bnf-second-production", "<a> ::= 'x' <b> ::= ", &BNF_TOKENS, tier.pick(4, 6), 3));
    out.push(token_stage("bnf-in-group", "<a> ::= (", &BNF_TOKENS, tier.pick(5, 6), 3));
    out.push(token_stage("abnf-in-group", "a = (", &ABNF_TOKENS, tier.pick(5, 6), 5));
    out.push(token_stage("bnf-spelled-alike", "<a> ::= ", &["<a>", "'a'", "(", ")", "[", "]", "|", "''"], tier.pick(7, 8), 3));
    out.push(token_stage("abnf-spelled-alike", "a = ", &["a", "'a'", "(", ")", "[", "]", "/"], tier.pick(6, 8), 5));
    out.push(char_stage("characters", "", &CHARS2, tier.pick(4, 5), 7));
    out.push(char_stage("bnf-characters", "<a>::=", &CHARS, tier.pick(5, 6), 3));
    out.push(char_stage("abnf-characters", "a =", &CHARS, tier.pick(4, 5), 5));
    let texts: Arc<Vec<String>> = Arc::new(base_texts().into_iter().flat_map(|t| edits(t, &CHARS2)).collect());
    {
        let texts = Arc::clone(&texts);
        out.push(stage("one-edit-away", format!("every text one edit away from {} well-formed texts", base_texts().len()), texts.len() as u64, move |i, cx| {
            check_text(&texts[i as usize], 7, cx)
        }));
    }
    // characters and pieces without a meaning here
    out.push(stage("every-character", "every Unicode character at 20 places of a grammar text", 0x110000 / 256, |i, cx| {
        for c in every_char(i, 256) {
            for t in placements(&c.to_string()) {
                check_text(&t, 1, cx)?;
            }
        }
        Ok(())
    }));
    out.push(stage("odd-pieces", format!("every pair of {} pieces foreign to the notation at 20 places", ODD.len()), (ODD.len() * ODD.len()) as u64, |i, cx| {
        let (a, b) = (ODD[i as usize % ODD.len()], ODD[i as usize / ODD.len()]);
        for t in placements(&format!("{a}{b}")).into_iter().chain(placements(&format!("{a} {b}"))) {
            check_text(&t, 7, cx)?;
        }
        if a == b {
            for t in placements(a) {
                check_text(&t, 7, cx)?;
            }
            for base in base_texts() {
                for t in edits(base, &[a]) {
                    check_text(&t, 7, cx)?;
                }
            }
        }
        Ok(())
    }));
    {
        let words = Arc::new(confusable());
        let k = words.len() as u64;
        out.push(stage("confusable-spellings", format!("all pairs of {k} easily confused spellings as names and terminals"), k * k, move |mut i, cx| {
            let a = words[digit(&mut i, k) as usize].as_str();
            let b = words[digit(&mut i, k) as usize].as_str();
            for t in [
                format!("<{a}> ::= '{b}' | <{b}> \"{a}\"\n<{b}> ::= \"{b}\""),
                format!("<{a}> ::= ('{b}' | <{b}>) [\"{a}\"]\n<{b}> ::= \"{b}\""),
                format!("{a} = '{b}' / {b} \"{a}\"\n{b} = \"{b}\""),
                format!("<a> ::= '{a}{b}' '{b}''{a}'"),
                format!("{a}<a> ::= 'x'{b}"),
            ] {
                check_text(&t, 7, cx)?;
            }
            Ok(())
        }));
    }
    {
        let words = escapes();
        let k = words.len() as u64;
        out.push(stage("escape-spellings", format!("{k} spellings that look like an escape, reference or placeholder at 20 places, and in every kind of group"), k, move |i, cx| {
            let w = words[i as usize].as_str();
            for w in [w.to_string(), format!("a{w}b"), format!("{w}{w}")] {
                for t in placements(&w).into_iter().chain([
                    format!("<a> ::= ('{w}' | \"{w}\" <{w}>) ['{w}']"),
                    format!("<a> ::= [('x' | '{w}')] '{w}'\n<{w}> ::= (<{w}>)"),
                    format!("a = ('{w}' / \"{w}\" {w}) ['{w}']"),
                    format!("<a> ::= ('x')\n<b> ::= '{w}' | \"{w}\""),
                ]) {
                    check_text(&t, 7, cx)?;
                }
            }
            Ok(())
        }));
    }
    // notations the user defines
    out.push(token_stage("curly-notation", "{a} -> ", &CURLY_TOKENS, tier.pick(4, 5), 8));
    out.push(token_stage("curly-notation-free", "", &CURLY_TOKENS, tier.pick(4, 5), 8));
    out.push(token_stage("guillemets-notation", "«a» ⇒ ", &GUILL_TOKENS, tier.pick(4, 5), 16));
    out.push(token_stage("guillemets-notation-free", "", &GUILL_TOKENS, tier.pick(4, 5), 16));
    out.push(token_stage("colon-notation", "a : ", &COLON_TOKENS, tier.pick(4, 5), 32));
    out.push(token_stage("colon-notation-free", "", &COLON_TOKENS, tier.pick(4, 5), 32));
    let step = tier.pick(23, 1);
    let n = (texts.len() as u64).div_ceil(step);
    out.push(stage("two-edits-away", format!("every text one edit away from every {step}th text of one-edit-away"), n, move |i, cx| {
        for t in edits(&texts[(i * step) as usize], &CHARS) {
            check_text(&t, 1, cx)?;
        }
        Ok(())
    }));
    out.push(huge_texts(tier));
    out
}

// ------------------------------------------------------------------ C25

fn check_parts(text: &str, cx: &mut Cx) -> Res {
    cx.states += 1;
    cx.transitions += 3;
    cx.traces += 1;
    let perr = |e: &bnf::Error| matches!(e, bnf::Error::ParseError(_));
    match (read_term(text), text.parse::<Term>()) {
        (None, Err(e)) if perr(&e) => {}
        (Some(w), Ok(g)) if w == g => cx.bump("terms_read", 1),
        (w, g) => return Err(format!("Term from {text:?}: {g:?}, expected {w:?}")),
    }
    match (read_expression(text), text.parse::<Expression>()) {
        (None, Err(e)) if perr(&e) => {}
        (Some(w), Ok(g)) if w.iter().eq(g.terms_iter()) => cx.bump("expressions_read", 1),
        (w, g) => return Err(format!("Expression from {text:?}: {g:?}, expected {w:?}")),
    }
    match (read_production(text), text.parse::<Production>()) {
        (None, Err(e)) if perr(&e) => {}
        (Some((l, a)), Ok(g))
            if g.lhs == Term::Nonterminal(l.clone())
                && g.len() == a.len()
                && g.rhs_iter().zip(&a).all(|(e, w)| w.iter().eq(e.terms_iter())) =>
        {
            cx.bump("productions_read", 1);
            cx.sample(|| format!("{text:?} is a production with {} alternatives", a.len()));
        }
        (w, g) => return Err(format!("Production from {text:?}: {g:?}, expected {w:?}")),
    }
    Ok(())
}

pub fn c25(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let scaled = Arc::new(scaled_texts(tier.pick(60, 150), tier.pick(260, 520)));
    out.push(stage("scaled-texts", "scaled grammar texts and their right-hand sides", scaled.len() as u64, move |i, cx| {
        let t = &scaled[i as usize];
        check_parts(t, cx)?;
        if let Some((_, rhs)) = t.split_once('=') {
            check_parts(rhs.trim_start(), cx)?;
            check_parts(rhs, cx)?;
        }
        Ok(())
    }));
    out.push(stage("every-character", "every Unicode character at 23 places of a term, expression or production", 0x110000 / 256, |i, cx| {
        for c in every_char(i, 256) {
            for t in part_placements(&c.to_string()) {
                check_parts(&t, cx)?;
            }
        }
        Ok(())
    }));
    out.push(stage("odd-pieces", format!("every pair of {} pieces foreign to the notation at 23 places", ODD.len()), (ODD.len() * ODD.len()) as u64, |i, cx| {
        let (a, b) = (ODD[i as usize % ODD.len()], ODD[i as usize / ODD.len()]);
        for t in part_placements(&format!("{a}{b}")).into_iter().chain(part_placements(&format!("{a} {b}"))) {
            check_parts(&t, cx)?;
        }
        if a == b {
            for t in part_placements(a) {
                check_parts(&t, cx)?;
            }
        }
        Ok(())
    }));
    {
        let words = Arc::new(confusable());
        let k = words.len() as u64;
        out.push(stage("confusable-spellings", format!("all pairs of {k} easily confused spellings as names and terminals"), k * k, move |mut i, cx| {
            let a = words[digit(&mut i, k) as usize].as_str();
            let b = words[digit(&mut i, k) as usize].as_str();
            for t in [format!("<{a}> ::= '{b}' | <{b}> \"{a}\""), format!("'{a}{b}' <{b}> \"{a}\""), format!("{a}'x'{b}"), format!("{a}<x>{b}"), format!("<{a}{b}>"), format!("\"{a}{b}\"")] {
                check_parts(&t, cx)?;
            }
            Ok(())
        }));
    }
    {
        let words = escapes();
        let k = words.len() as u64;
        out.push(stage("escape-spellings", format!("{k} spellings that look like an escape, reference or placeholder at 23 places"), k, move |i, cx| {
            let w = words[i as usize].as_str();
            for w in [w.to_string(), format!("a{w}b"), format!("{w}{w}")] {
                for t in part_placements(&w) {
                    check_parts(&t, cx)?;
                }
            }
            Ok(())
        }));
    }
    for (name, prefix, hi) in [
        ("tokens", "", tier.pick(5u32, 6)),
        ("production-tokens", "<a> ::= ", tier.pick(5, 6)),
        ("second-definition", "<a> ::= 'x' | <b> ", tier.pick(4, 5)),
    ] {
        let seqs = Seqs { radix: 12, lo: 0, hi };
        out.push(stage(name, format!("{prefix:?} + every sequence of at most {hi} of {BNF_TOKENS:?}, spaced and unspaced"), seqs.count(), move |i, cx| {
            let toks = seqs.get(i);
            let spaced: String = toks.iter().map(|k| format!("{} ", BNF_TOKENS[*k])).collect();
            let tight: String = toks.iter().map(|k| BNF_TOKENS[*k]).collect();
            check_parts(&format!("{prefix}{spaced}"), cx)?;
            check_parts(&format!("{prefix}{tight}"), cx)
        }));
    }
    let seqs = Seqs { radix: CHARS2.len() as u64, lo: 0, hi: tier.pick(4, 5) };
    out.push(stage("characters", format!("every string of at most {} of {CHARS2:?}", seqs.hi), seqs.count(), move |i, cx| {
        let s: String = seqs.get(i).into_iter().map(|k| CHARS2[k]).collect();
        check_parts(&s, cx)
    }));
    let seqs = Seqs { radix: CHARS.len() as u64, lo: 0, hi: tier.pick(4, 5) };
    out.push(stage("production-characters", format!("\"<a>::='x'\" + every string of at most {} of {CHARS:?}", seqs.hi), seqs.count(), move |i, cx| {
        let s: String = seqs.get(i).into_iter().map(|k| CHARS[k]).collect();
        check_parts(&format!("<a>::='x'{s}"), cx)?;
        check_parts(&format!("'x'{s}"), cx)
    }));
    let bases = ["<a> ::= 'x' | <b> \"y\" ;c\n", "'x' <a> \"q\"", "<name with space>", "\"it's\"", "<a>::=''|<a>\n"];
    let texts: Arc<Vec<String>> = Arc::new(bases.iter().flat_map(|t| edits(t, &CHARS2)).flat_map(|t| { let mut v = vec![t.clone()]; if tier == Tier::Thorough { v.extend(edits(&t, &CHARS)); } v }).collect());
    out.push(stage("edits", "every text one edit (thorough: two edits) away from five well-formed ones", texts.len() as u64, move |i, cx| check_parts(&texts[i as usize], cx)));
    out.push(huge_parts(tier));
    out
}

// ------------------------------------------------------------------ C09

/// A grammar as tokens; `tight[i]` says whether nothing may be put between tokens i and i+1
/// without a separator (ABNF names need white space after them).
fn render_tokens(ast: &Ast, f: Fmt, quote: &mut dyn FnMut(&str) -> String) -> Vec<(String, bool)> {
    let mut out: Vec<(String, bool)> = vec![];
    let name = |n: &str| match f.delim() {
        Some((o, c)) => (format!("{o}{n}{c}"), false),
        None => (n.to_string(), true),
    };
    fn alts(a: &Alts, f: Fmt, quote: &mut dyn FnMut(&str) -> String, out: &mut Vec<(String, bool)>, name: &dyn Fn(&str) -> (String, bool)) {
        for (i, e) in a.iter().enumerate() {
            if i > 0 {
                out.push((f.alt().to_string(), false));
            }
            for t in e {
                match t {
                    Pt::T(s) => out.push((quote(s), false)),
                    Pt::N(n) => out.push(name(n)),
                    Pt::G(a) => {
                        out.push(("(".into(), false));
                        alts(a, f, quote, out, name);
                        out.push((")".into(), false));
                    }
                    Pt::O(a) => {
                        out.push(("[".into(), false));
                        alts(a, f, quote, out, name);
                        out.push(("]".into(), false));
                    }
                }
            }
        }
    }
    for (l, a) in ast {
        out.push(name(l));
        out.push((f.sep().to_string(), false));
        alts(a, f, quote, &mut out, &name);
    }
    out
}

fn single_quotes(s: &str) -> String {
    if s.contains('\'') { format!("\"{s}\"") } else { format!("'{s}'") }
}

const LAYOUTS: [&str; 12] =
    ["", " ", "\n", "\t\t", "\r\n", ";c\n", "; '|<x>(\r", " ; comment ::= [\n\n", "\u{3000}", "\u{a0}\n", ";\n;\n", "\n \n;x\n\t"];

fn lay_out(toks: &[(String, bool)], gaps: &dyn Fn(usize) -> &'static str) -> String {
    // gap 0 is before the first token, gap i after token i-1
    let mut s = String::from(gaps(0));
    for (i, (t, needs_ws)) in toks.iter().enumerate() {
        s.push_str(t);
        let gap = gaps(i + 1);
        let next = toks.get(i + 1);
        let closes = next.is_some_and(|n| n.0 == ")" || n.0 == "]");
        if *needs_ws && !(gap.is_empty() && closes) && !(gap.is_empty() && next.is_none()) && !gap.starts_with(char::is_whitespace) {
            s.push(' ');
        }
        s.push_str(gap);
    }
    s
}

fn c09_asts() -> Vec<Ast> {
    let t = |s: &str| Pt::T(s.to_string());
    let n = |s: &str| Pt::N(s.to_string());
    let mut out: Vec<Ast> = vec![];
    let items: Vec<Vec<Pt>> = vec![
        vec![t("x")],
        vec![n("b")],
        vec![t("x"), n("b")],
        vec![n("b"), t("y")],
        vec![n("b"), n("c")],
        vec![t(""), t("z")],
        vec![Pt::G(vec![vec![t("x")], vec![n("b")]])],
        vec![Pt::O(vec![vec![n("b"), t("y")]])],
        vec![Pt::G(vec![vec![Pt::O(vec![vec![t("x")]]), n("c")]]), t("k")],
        vec![t("; ( [ | < ::= /"), n("b")],
        vec![n("b"), Pt::O(vec![vec![n("c")]]), Pt::G(vec![vec![n("c")], vec![t("x"), t("y")]])],
    ];
    for (i, a) in items.iter().enumerate() {
        out.push(vec![("a".into(), vec![a.clone()])]);
        for b in items.iter().skip(i % 2) {
            out.push(vec![("a".into(), vec![a.clone(), b.clone()]), ("b".into(), vec![b.clone()])]);
        }
        out.push(vec![("a".into(), vec![a.clone()]), ("b".into(), vec![a.clone(), vec![t("e")]]), ("c-d".into(), vec![vec![n("a")]])]);
        out.push(vec![("a".into(), vec![a.clone()]), ("a".into(), vec![vec![t("again")]])]);
    }
    out
}

fn expect_same(ast: &Ast, text: &str, want: &Grammar, cx: &mut Cx) -> Res {
    cx.states += 1;
    cx.transitions += 1;
    cx.traces += 1;
    match text.parse::<Grammar>() {
        Ok(g) if g == *want => Ok(()),
        Ok(g) => {
            // introduced names are not part of the text's content
            same_structure(ast, &g).map_err(|e| format!("{text:?} gives {g}, expected {want} ({e})"))
        }
        Err(e) => Err(format!("{text:?} is rejected ({e}), another layout of it gives {want}")),
    }
}

pub fn c09(tier: Tier) -> Vec<Stage> {
    let asts = Arc::new(c09_asts());
    let mut out = vec![];
    for f in [Fmt::Bnf, Fmt::Abnf] {
        let asts2 = Arc::clone(&asts);
        let lim = tier.pick(6usize, LAYOUTS.len());
        out.push(stage(
            if f == Fmt::Bnf { "bnf-layouts" } else { "abnf-layouts" },
            format!("{} grammars; every layout of {} at every token boundary, every pair of boundaries with {lim} layouts each, all boundaries alike", asts.len(), LAYOUTS.len()),
            asts.len() as u64,
            move |i, cx| {
                let ast = &asts2[i as usize];
                let toks = render_tokens(ast, f, &mut |s| single_quotes(s));
                let base = lay_out(&toks, &|_| " ");
                let want: Grammar = base.parse().map_err(|e| format!("{base:?} rejected: {e}"))?;
                same_structure(ast, &want).map_err(|e| format!("{base:?} gives {want}: {e}"))?;
                let g = toks.len() + 1;
                for l in LAYOUTS {
                    expect_same(ast, &lay_out(&toks, &|_| l), &want, cx)?;
                    for k in 0..g {
                        expect_same(ast, &lay_out(&toks, &|i| if i == k { l } else { " " }), &want, cx)?;
                        expect_same(ast, &lay_out(&toks, &|i| if i == k { l } else { "" }), &want, cx)?;
                    }
                }
                for k in 0..g {
                    for m in k + 1..g {
                        for l1 in &LAYOUTS[..lim] {
                            for l2 in &LAYOUTS[LAYOUTS.len() - lim..] {
                                let pick = |i: usize| -> &'static str { if i == k { l1 } else if i == m { l2 } else { " " } };
                                expect_same(ast, &lay_out(&toks, &pick), &want, cx)?;
                            }
                        }
                    }
                }
                cx.sample(|| format!("{base:?} in all layouts"));
                Ok(())
            },
        ));
        // quote styles: every combination of quotes
        let asts2 = Arc::clone(&asts);
        out.push(stage(
            if f == Fmt::Bnf { "bnf-quotes" } else { "abnf-quotes" },
            "every combination of quote styles over the terminals",
            asts.len() as u64,
            move |i, cx| {
                let ast = &asts2[i as usize];
                let mut n = 0;
                let base_toks = render_tokens(ast, f, &mut |s| {
                    n += 1;
                    single_quotes(s)
                });
                let want: Grammar = lay_out(&base_toks, &|_| " ").parse().map_err(|e: bnf::Error| e.to_string())?;
                for bits in 0..(1u32 << n.min(12)) {
                    let mut k = 0;
                    let toks = render_tokens(ast, f, &mut |s| {
                        k += 1;
                        if bits >> (k - 1) & 1 == 1 { format!("\"{s}\"") } else { format!("'{s}'") }
                    });
                    for gap in ["", " ", ";c\n"] {
                        expect_same(ast, &lay_out(&toks, &|_| gap), &want, cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    // every white-space character and comments with anything in them, at every token boundary
    {
        let mut gaps: Vec<String> = (0..0x110000u32).filter_map(char::from_u32).filter(|c| c.is_whitespace()).map(String::from).collect();
        let ws = gaps.len();
        for body in [
            "", ";", "'", "\"", "''", "\"'", "<", "<a>", "<a> ::= 'x'", "::=", "=", "|", "/", "(", ")", "[", "]", "[(", "a = 'x'", "\\", "\u{feff}", "\0", "\t", "é😀",
            "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "end", "#", "//", "*/", "-->", "%x41", "it's", "say \"hi\"", "; ; ;", "a;b", " ",
        ] {
            for end in ["\n", "\r", "\r\n", "\n\n", "\n;\n"] {
                gaps.push(format!(";{body}{end}"));
            }
            gaps.push(format!(" ;{body}\n;{body}\n "));
        }
        for n in sizes(0, 1100) {
            gaps.push(" ".repeat(n));
            gaps.push("\r\n".repeat(n));
            gaps.push(format!(";{}\n", "c".repeat(n)));
            gaps.push(format!(";{}\n", "('".repeat(n)));
            gaps.push(";c\n".repeat(n));
        }
        let gaps: &'static [String] = Box::leak(gaps.into_boxed_slice());
        let k = gaps.len() as u64;
        let pick: Vec<Ast> = asts.iter().step_by(tier.pick(7, 1)).cloned().collect();
        out.push(stage(
            "every-gap",
            format!("{ws} white-space characters, {} comments and runs of blanks at every token boundary of {} grammars, both notations", gaps.len() - ws, pick.len()),
            k * pick.len() as u64 * 2,
            move |mut i, cx| {
                let f = if digit(&mut i, 2) == 0 { Fmt::Bnf } else { Fmt::Abnf };
                let gap: &'static str = &gaps[digit(&mut i, k) as usize];
                let ast = &pick[i as usize];
                let toks = render_tokens(ast, f, &mut |s| single_quotes(s));
                let base = lay_out(&toks, &|_| " ");
                let want: Grammar = base.parse().map_err(|e| format!("{base:?} rejected: {e}"))?;
                for at in 0..=toks.len() {
                    expect_same(ast, &lay_out(&toks, &|j| if j == at { gap } else { " " }), &want, cx)?;
                }
                // a comment may also end the text
                if gap.starts_with(';') && !gap.trim_end().contains(['\n', '\r']) {
                    let last = format!("{base} {}", gap.trim_end());
                    expect_same(ast, &last, &want, cx)?;
                }
                expect_same(ast, &lay_out(&toks, &|_| gap), &want, cx)
            },
        ));
    }
    // comments with every character, and something readable behind it
    {
        let per = 256;
        let bodies = ["{} | 'q'", "q{}) 'q' <q>", "{}{}<q> ::= 'q'", "'{}' \"q"];
        let texts: Vec<(Fmt, Ast, Vec<(String, bool)>)> = [(Fmt::Bnf, 0), (Fmt::Abnf, 0), (Fmt::Bnf, 8), (Fmt::Abnf, 30)]
            .into_iter()
            .map(|(f, k)| (f, asts[k].clone(), render_tokens(&asts[k], f, &mut |s| single_quotes(s))))
            .collect();
        out.push(stage("every-comment-character", "every Unicode character in a comment of 4 kinds after the first, the middle and the last token of 4 grammars", 0x110000 / per, move |i, cx| {
            for c in every_char(i, per).filter(|c| *c != '\n' && *c != '\r') {
                for (k, (_, ast, toks)) in texts.iter().enumerate() {
                    let body = bodies[k].replace("{}", &c.to_string());
                    let want = lay_out(toks, &|_| " ").parse::<Grammar>().map_err(|e| e.to_string())?;
                    let at = [0, toks.len() / 2, toks.len()][(c as usize + k) % 3];
                    let gaps: Vec<String> = (0..=toks.len()).map(|j| if j == at { format!(" ;{body}\n") } else { " ".into() }).collect();
                    expect_same(ast, &join(toks, &gaps), &want, cx)?;
                }
            }
            Ok(())
        }));
    }
    // quote styles of terminals with anything in them
    {
        let words: Vec<String> = confusable().into_iter().chain(ODD.iter().map(|s| s.to_string())).filter(|w| !w.contains('\'') && !w.contains('"')).collect();
        let k = words.len() as u64;
        out.push(stage("odd-quotes", format!("all pairs of {k} odd spellings as terminals, every combination of quote styles, plain and in groups, both notations"), k * k, move |mut i, cx| {
            let a = words[digit(&mut i, k) as usize].clone();
            let b = words[digit(&mut i, k) as usize].clone();
            for ast in [
                vec![("s".to_string(), vec![vec![Pt::T(a.clone()), Pt::T(b.clone())], vec![Pt::T(b.clone())]])],
                vec![("s".to_string(), vec![vec![Pt::G(vec![vec![Pt::T(a.clone())], vec![Pt::T(b.clone())]]), Pt::O(vec![vec![Pt::T(a.clone())]])]])],
            ] {
                let mut want: Option<Grammar> = None;
                for f in [Fmt::Bnf, Fmt::Abnf] {
                    for bits in 0..8u32 {
                        let mut q = 0;
                        let toks = render_tokens(&ast, f, &mut |s| {
                            q += 1;
                            if bits >> (q - 1) & 1 == 1 { format!("\"{s}\"") } else { format!("'{s}'") }
                        });
                        let text = lay_out(&toks, &|_| " ");
                        if want.is_none() {
                            let g: Grammar = text.parse().map_err(|e| format!("{text:?} rejected: {e}"))?;
                            same_structure(&ast, &g).map_err(|e| format!("{text:?} gives {g}: {e}"))?;
                            want = Some(g);
                        }
                        expect_same(&ast, &text, want.as_ref().unwrap(), cx)?;
                    }
                }
            }
            Ok(())
        }));
    }
    // the two notations give the same grammar
    let asts2 = Arc::clone(&asts);
    out.push(stage("notations", "BNF and ABNF renderings, every pair of uniform layouts, auto-detected and explicit", asts.len() as u64, move |i, cx| {
        let ast = &asts2[i as usize];
        let b = render_tokens(ast, Fmt::Bnf, &mut |s| single_quotes(s));
        let a = render_tokens(ast, Fmt::Abnf, &mut |s| single_quotes(s));
        let c = render_tokens(ast, Fmt::Guillemets, &mut |s| single_quotes(s));
        for l1 in LAYOUTS {
            for l2 in LAYOUTS {
                let (tb, ta) = (lay_out(&b, &|_| l1), lay_out(&a, &|_| l2));
                cx.states += 1;
                cx.transitions += 4;
                cx.traces += 1;
                let tc = lay_out(&c, &|_| l1);
                let gs = [
                    tb.parse::<Grammar>(),
                    ta.parse::<Grammar>(),
                    Grammar::parse_from::<bnf::BNF>(&tb),
                    Grammar::parse_from::<bnf::ABNF>(&ta),
                    Grammar::parse_from::<GuillemetsFormat>(&tc),
                ];
                if gs.iter().any(|g| g.is_err() || g.as_ref().ok() != gs[0].as_ref().ok()) {
                    return Err(format!("BNF {tb:?} and ABNF {ta:?} give {gs:?}"));
                }
            }
        }
        Ok(())
    }));
    // incremental alternatives: the definition may be spread over several "=/" rules
    let alts: Arc<Vec<Vec<Pt>>> = Arc::new(vec![
        vec![Pt::T("x".into())],
        vec![Pt::T("y".into()), Pt::N("a".into())],
        vec![Pt::N("b".into())],
        vec![Pt::G(vec![vec![Pt::T("p".into())], vec![Pt::T("q".into())]])],
        vec![Pt::O(vec![vec![Pt::T("z".into())]]), Pt::T("w".into())],
    ]);
    let seqs = Seqs { radix: 5, lo: 1, hi: tier.pick(4, 6) };
    out.push(stage("incremental", format!("every list of at most {} alternatives, every way to cut it into a rule and incremental rules, both notations, other rule before/between/after", seqs.hi), seqs.count(), move |i, cx| {
        let list: Vec<Vec<Pt>> = seqs.get(i).into_iter().map(|k| alts[k].clone()).collect();
        let whole: Ast = vec![("a".into(), list.clone()), ("b".into(), vec![vec![Pt::T("bb".into())]])];
        for cuts in 0..(1u32 << (list.len() - 1)) {
            let mut groups: Vec<Vec<Vec<Pt>>> = vec![vec![list[0].clone()]];
            for k in 1..list.len() {
                if cuts >> (k - 1) & 1 == 1 {
                    groups.push(vec![]);
                }
                groups.last_mut().unwrap().push(list[k].clone());
            }
            for f in [Fmt::Bnf, Fmt::Abnf] {
                for bpos in 0..=groups.len() {
                    if bpos == 0 {
                        continue; // <a> must stay the first symbol
                    }
                    for gap in [" ", "\n", ";c\n "] {
                        let mut text = String::new();
                        for (k, g) in groups.iter().enumerate() {
                            let one: Ast = vec![("a".into(), g.clone())];
                            let mut toks = render_tokens(&one, f, &mut |s| single_quotes(s));
                            if k > 0 {
                                toks[1].0 = if f == Fmt::Bnf { "::=|".into() } else { "=/".into() };
                            }
                            text.push_str(&lay_out(&toks, &|i| if i == 0 { "" } else { gap }));
                            text.push('\n');
                            if bpos == k + 1 {
                                let one: Ast = vec![("b".into(), vec![vec![Pt::T("bb".into())]])];
                                let toks = render_tokens(&one, f, &mut |s| single_quotes(s));
                                text.push_str(&lay_out(&toks, &|_| gap));
                                text.push('\n');
                            }
                        }
                        cx.states += 1;
                        cx.transitions += 1;
                        let g: Grammar = text.parse().map_err(|e| format!("{text:?} rejected: {e}"))?;
                        // the symbol's alternatives, in order, whatever production they sit in
                        let mut user: Vec<Vec<Term>> = vec![];
                        let mut others = vec![];
                        for p in g.productions_iter() {
                            if p.lhs == Term::Nonterminal("a".into()) {
                                user.extend(p.rhs_iter().map(|e| e.terms_iter().cloned().collect()));
                            } else {
                                others.push(p.clone());
                            }
                        }
                        let merged = Grammar::from_parts(
                            std::iter::once(Production::from_parts(
                                Term::Nonterminal("a".into()),
                                user.into_iter().map(Expression::from_parts).collect(),
                            ))
                            .chain(others)
                            .collect(),
                        );
                        if g.productions_iter().next().map(|p| &p.lhs) != Some(&Term::Nonterminal("a".into())) {
                            return Err(format!("{text:?}: first symbol is not <a>: {g}"));
                        }
                        same_structure(&whole, &merged).map_err(|e| format!("{text:?} gives {g}: {e}"))?;
                        cx.traces += 1;
                    }
                }
            }
        }
        Ok(())
    }));
    out.push(huge_gaps(tier));
    out
}

// ------------------------------------------------------------------ C10

/// Own lowering of an extended grammar: a nonterminal per group, with names no text can use.
fn lower(ast: &Ast) -> Rg {
    let mut rg = Rg { tn: vec![], nn: vec![], prods: vec![] };
    fn id(v: &mut Vec<String>, s: &str) -> usize {
        v.iter().position(|x| x == s).unwrap_or_else(|| {
            v.push(s.into());
            v.len() - 1
        })
    }
    fn alts(a: &Alts, rg: &mut Rg) -> Vec<Vec<Sym>> {
        a.iter()
            .map(|e| {
                e.iter()
                    .map(|t| match t {
                        Pt::T(s) => Sym::T(id(&mut rg.tn, s)),
                        Pt::N(n) => Sym::N(id(&mut rg.nn, n)),
                        Pt::G(a) | Pt::O(a) => {
                            let n = rg.nn.len();
                            rg.nn.push(format!(">{n}"));
                            let mut l = alts(a, rg);
                            if matches!(t, Pt::O(_)) {
                                l.push(vec![]);
                            }
                            rg.prods.push((n, l));
                            Sym::N(n)
                        }
                    })
                    .collect()
            })
            .collect()
    }
    let mut user = vec![];
    for (l, _) in ast {
        id(&mut rg.nn, l);
    }
    for (l, a) in ast {
        let l = id(&mut rg.nn, l);
        let a = alts(a, &mut rg);
        user.push((l, a));
    }
    user.append(&mut rg.prods);
    rg.prods = user;
    rg
}

fn c10_case(ast: &Ast, f: Fmt, inputs: &[String], cx: &mut Cx) -> Res {
    let toks = render_tokens(ast, f, &mut |s| single_quotes(s));
    let text = lay_out(&toks, &|_| " ");
    cx.states += 1;
    let g: Grammar = text.parse().map_err(|e| format!("{text:?} rejected: {e}"))?;
    let ctx = |m: String| format!("{text:?} became {g}: {m}");
    // user-written productions first, in order; introduced names fresh
    let user = all_names(ast);
    let prods: Vec<&Production> = g.productions_iter().collect();
    for (k, (l, a)) in ast.iter().enumerate() {
        match prods.get(k) {
            Some(p) if p.lhs == Term::Nonterminal(l.clone()) && p.len() == a.len() => {}
            p => return Err(ctx(format!("production {k} is {p:?}, the text has <{l}> with {} alternatives", a.len()))),
        }
    }
    let mut intro = BTreeSet::new();
    for p in &prods[ast.len()..] {
        match &p.lhs {
            Term::Nonterminal(n) if !user.contains(n) && intro.insert(n.clone()) => {}
            t => return Err(ctx(format!("{t} is introduced, but is used by the text or introduced twice"))),
        }
    }
    // every name in the grammar is the text's or introduced; undefined names stay undefined
    let defined: BTreeSet<String> = ast.iter().map(|p| p.0.clone()).collect();
    let undefined_expected = user.iter().any(|n| !defined.contains(n));
    cx.transitions += 2;
    if g.validate().is_ok() == undefined_expected {
        return Err(ctx(format!("validate = {:?}, the text leaves names undefined: {undefined_expected}", g.validate())));
    }
    let model = lower(ast);
    let got = Rg::from_bnf(&g).map_err(&ctx)?;
    let parser = g.build_parser();
    for input in inputs {
        let m = Rec::new(&model, input).accepts(model.start());
        let rg = Rec::new(&got, input);
        cx.transitions += 1;
        if rg.accepts(got.start()) != m {
            return Err(ctx(format!("input {input:?}: written expression derives it: {m}, normalised grammar: {}", !m)));
        }
        if let Ok(p) = &parser
            && (rg.search_finite(got.start()) || (m && crate::parse::obtainable(&rg, got.start(), 1) > 0))
        {
            cx.transitions += 1;
            if p.parse_input(input).next().is_some() != m {
                return Err(ctx(format!("input {input:?}: derivable {m}, parser disagrees")));
            }
        }
        cx.traces += 1;
    }
    cx.sample(|| format!("{text:?} as {} productions", prods.len()));
    Ok(())
}

/// All alternative-lists with exactly `leaves` leaves and at most `depth` nested brackets.
fn ext_alts(leaves: usize, depth: usize, leaf: &[Pt]) -> Vec<Alts> {
    // alternatives: ordered split into sequences
    let seqs = ext_seqs(leaves, depth, leaf);
    let mut out: Vec<Alts> = seqs.iter().map(|s| vec![s.clone()]).collect();
    for first in 1..leaves {
        let a = ext_seqs(first, depth, leaf);
        let rest = ext_alts(leaves - first, depth, leaf);
        for x in &a {
            for r in &rest {
                let mut v = vec![x.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn ext_seqs(leaves: usize, depth: usize, leaf: &[Pt]) -> Vec<Vec<Pt>> {
    let mut out: Vec<Vec<Pt>> = vec![];
    for first in 1..=leaves {
        let heads = ext_terms(first, depth, leaf);
        let rests: Vec<Vec<Pt>> = if first == leaves { vec![vec![]] } else { ext_seqs(leaves - first, depth, leaf) };
        for h in &heads {
            for r in &rests {
                let mut v = vec![h.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn ext_terms(leaves: usize, depth: usize, leaf: &[Pt]) -> Vec<Pt> {
    let mut out: Vec<Pt> = vec![];
    if leaves == 1 {
        out.extend(leaf.iter().cloned());
    }
    if depth > 0 {
        for a in ext_alts(leaves, depth - 1, leaf) {
            out.push(Pt::G(a.clone()));
            out.push(Pt::O(a));
        }
    }
    out
}

pub fn c10(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let t = |s: &str| Pt::T(s.into());
    let n = |s: &str| Pt::N(s.into());
    let mk = |name: &'static str, leaves: usize, depth: usize, leaf: Vec<Pt>, tail: Ast, inputs: Vec<String>, lhs: &'static str| {
        let mut all: Vec<Alts> = vec![];
        for l in 1..=leaves {
            all.extend(ext_alts(l, depth, &leaf));
        }
        let bounds = format!("every expression with at most {leaves} leaves {leaf:?} and {depth} levels of groups/optionals, {} inputs, both notations", inputs.len());
        let count = all.len() as u64;
        stage(name, bounds, count, move |i, cx| {
            let mut ast: Ast = vec![(lhs.to_string(), all[i as usize].clone())];
            ast.extend(tail.iter().cloned());
            c10_case(&ast, Fmt::Bnf, &inputs, cx)?;
            c10_case(&ast, Fmt::Abnf, &inputs, cx)
        })
    };
    // names of the generated form do not exist in ABNF (must start with a letter), so those are BNF only
    out.push(mk("expressions", tier.pick(3, 4), 2, vec![t("x"), t("y")], vec![], uni::inputs(&["x", "y"], tier.pick(3, 4)), "s"));
    out.push(mk("deep-nesting", 2, tier.pick(4, 6), vec![t("x"), t("y")], vec![], uni::inputs(&["x", "y"], 3), "s"));
    out.push(mk(
        "with-nonterminals",
        3,
        tier.pick(1, 2),
        vec![t("x"), n("b"), n("s")],
        vec![("b".into(), vec![vec![t("y")], vec![Pt::O(vec![vec![t("x")]])]])],
        uni::inputs(&["x", "y"], 3),
        "s",
    ));
    out.push(mk(
        "spelled-alike",
        3,
        2,
        vec![t("b"), n("b"), t("")],
        vec![("b".into(), vec![vec![t("y")], vec![Pt::G(vec![vec![t("b"), t("s")]])]])],
        uni::inputs(&["b", "y", "s"], 3),
        "s",
    ));
    // name collisions: names of the generated form, defined, undefined or only referenced
    let names = ["__anon0", "__anon1", "__anon2", "__anon00", "__anon"];
    let shapes: Vec<fn(Pt, Pt) -> Alts> = vec![
        |a, b| vec![vec![Pt::G(vec![vec![a]]), b]],
        |a, b| vec![vec![a, Pt::O(vec![vec![b]])]],
        |a, b| vec![vec![Pt::G(vec![vec![Pt::O(vec![vec![a]])], vec![b]])]],
        |a, b| vec![vec![Pt::G(vec![vec![a]]), Pt::O(vec![vec![b]]), Pt::G(vec![vec![Pt::T("z".into())]])]],
        |a, b| vec![vec![Pt::O(vec![vec![Pt::G(vec![vec![Pt::T("z".into())]])]])], vec![a], vec![Pt::G(vec![vec![b]])]],
        |a, b| vec![vec![Pt::G(vec![vec![Pt::G(vec![vec![Pt::G(vec![vec![Pt::T("z".into()), a, b]])]])]])]],
    ];
    let ns = names.len() as u64;
    let total = ns * ns * shapes.len() as u64 * 16 * (ns + 1);
    out.push(stage("name-collisions", format!("user names {names:?} on the left, referenced inside and outside groups, defined or not (before or after), {} shapes", shapes.len()), total, move |i, cx| {
        let mut k = i;
        let a = names[digit(&mut k, ns) as usize];
        let b = names[digit(&mut k, ns) as usize];
        let shape = shapes[digit(&mut k, shapes.len() as u64) as usize];
        let defs = digit(&mut k, 16);
        let lhs_i = digit(&mut k, ns + 1) as usize;
        let lhs = if lhs_i == names.len() { "s" } else { names[lhs_i] };
        let mut ast: Ast = vec![];
        let def_a: (String, Alts) = (a.into(), vec![vec![Pt::T("a".into())]]);
        let def_b: (String, Alts) = (b.into(), vec![vec![Pt::T("b".into()), Pt::O(vec![vec![Pt::T("c".into())]])]]);
        let main: (String, Alts) = (lhs.into(), shape(Pt::N(a.into()), Pt::N(b.into())));
        ast.push(main);
        if defs & 1 != 0 {
            if defs & 4 != 0 { ast.insert(0, def_a.clone()) } else { ast.push(def_a) }
        }
        if defs & 2 != 0 {
            if defs & 8 != 0 { ast.insert(0, def_b.clone()) } else { ast.push(def_b) }
        }
        c10_case(&ast, Fmt::Bnf, &uni::inputs(&["a", "b", "c", "z"], 2), cx)
    }));
    // two productions with groups, each using the other
    {
        let mut all: Vec<Alts> = vec![];
        for l in 1..=2 {
            all.extend(ext_alts(l, tier.pick(1, 2), &[t("x"), n("s"), n("b")]));
        }
        // (a production of plain terms on one side is covered above)
        let step = tier.pick(1u64, 7);
        let k = all.len() as u64;
        let inputs = uni::inputs(&["x", "y"], tier.pick(2, 3));
        out.push(stage("two-productions", format!("every pair (thorough: every {step}th) of {k} expressions with at most 2 leaves 'x', <s>, <b> as the two productions, the second also deriving 'y'"), (k * k).div_ceil(step), move |i, cx| {
            let i = i * step;
            let mut second = all[(i / k) as usize].clone();
            second.push(vec![Pt::T("y".into())]);
            let ast: Ast = vec![("s".into(), all[(i % k) as usize].clone()), ("b".into(), second)];
            c10_case(&ast, if i / step % 2 == 0 { Fmt::Bnf } else { Fmt::Abnf }, &inputs, cx)
        }));
    }
    // brackets next to one another, equal ones too
    {
        let mut units: Vec<Pt> = vec![t("x"), n("b")];
        for l in 1..=2 {
            for a in ext_alts(l, tier.pick(0, 1), &[t("x"), t("y")]) {
                units.push(Pt::G(a.clone()));
                units.push(Pt::O(a));
            }
        }
        let k = units.len() as u64;
        let inputs = uni::inputs(&["x", "y"], tier.pick(3, 4));
        out.push(stage("adjacent", format!("every pair u, v of {k} terminals, groups and optionals as u v, u u v, u v u, v u u, u u v v, u|v|u, plain and inside a group, an optional, an alternative, both notations"), k * k * 6 * 5, move |mut i, cx| {
            let kind = digit(&mut i, 6);
            let wrap = digit(&mut i, 5);
            let u = units[digit(&mut i, k) as usize].clone();
            let v = units[i as usize].clone();
            let alts: Alts = match kind {
                0 => vec![vec![u, v]],
                1 => vec![vec![u.clone(), u, v]],
                2 => vec![vec![u.clone(), v, u]],
                3 => vec![vec![v, u.clone(), u]],
                4 => vec![vec![u.clone(), u, v.clone(), v]],
                _ => vec![vec![u.clone()], vec![v], vec![u]],
            };
            let body: Alts = match wrap {
                0 => alts,
                1 => vec![vec![Pt::G(alts)]],
                2 => vec![vec![Pt::O(alts)]],
                3 => vec![vec![Pt::T("y".into()), Pt::G(vec![vec![Pt::G(alts)], vec![Pt::T("x".into())]])]],
                _ => vec![vec![Pt::G(alts.clone()), Pt::G(alts)]],
            };
            let ast: Ast = vec![("s".into(), body), ("b".into(), vec![vec![Pt::T("y".into())]])];
            c10_case(&ast, Fmt::Bnf, &inputs, cx)?;
            c10_case(&ast, Fmt::Abnf, &inputs, cx)
        }));
    }
    // sizes: groups of n alternatives, n groups in sequence, n nested, n productions with groups
    let big = sizes(12, tier.pick(1030, 2100));
    out.push(stage("large", format!("sizes 1..12 and around round numbers up to {}: alternatives in a group, groups as alternatives, nested groups, productions with groups", big.last().unwrap()), big.len() as u64 * 8, move |i, cx| {
        let m = big[i as usize / 8];
        let word = |k: usize| Pt::T(format!("{k},"));
        let (ast, inputs): (Ast, Vec<String>) = match i % 8 {
            k @ (0 | 1) => {
                let alts: Alts = (0..m).map(|k| vec![word(k)]).collect();
                let b = if k == 0 { Pt::G(alts) } else { Pt::O(alts) };
                (vec![("s".into(), vec![vec![b, Pt::T("!".into())]])], vec!["!".into(), "0,!".into(), format!("{},!", m - 1), format!("{},!", m / 2), format!("{m},!")])
            }
            k @ (2 | 3) => {
                let alts: Alts = (0..m).map(|j| vec![if k == 2 { Pt::G(vec![vec![word(j)]]) } else { Pt::G(vec![vec![word(j)], vec![word(j), word(j)]]) }]).collect();
                (vec![("s".into(), alts)], vec!["".into(), "0,".into(), "0,0,".into(), format!("{},", m - 1), format!("{},{},", m - 1, m - 1), format!("{m},")])
            }
            k @ (4 | 5) => {
                let m = m.min(260);
                let mut e = word(0);
                for d in 1..=m {
                    let inner = vec![e, word(d)];
                    e = if k == 4 { Pt::G(vec![inner]) } else { Pt::O(vec![inner]) };
                }
                let ast: Ast = vec![("s".into(), vec![vec![e]])];
                let mut inputs = vec!["".to_string(), "0,".into()];
                for d in [1, 2, 3, m, m - 1, m + 1] {
                    inputs.push((0..=d).map(|d| format!("{d},")).collect());
                    inputs.push((d..=m).map(|d| format!("{d},")).collect());
                }
                inputs.retain(|s| s.len() <= MAX_INPUT);
                (ast, inputs)
            }
            6 => {
                let mut ast: Ast = vec![("s".into(), (0..m).map(|j| vec![Pt::N(format!("p{j}"))]).collect())];
                ast.extend((0..m).map(|j| (format!("p{j}"), vec![vec![Pt::G(vec![vec![word(j)], vec![Pt::T("q".into())]]), Pt::O(vec![vec![Pt::T("!".into())]])]])));
                (ast, vec!["0,".into(), "0,!".into(), format!("{},!", m - 1), format!("{},", m - 1), format!("{},", m), "q!".into(), "!".into()])
            }
            _ => {
                // m optionals in a row
                let m = m.min(60);
                (vec![("s".into(), vec![(0..m).map(|j| Pt::O(vec![vec![word(j)]])).collect()])], vec!["".into(), "0,".into(), format!("{},", m - 1), format!("0,{},", m - 1), format!("{},0,", m - 1), format!("{m},")])
            }
        };
        let inputs: Vec<String> = inputs.into_iter().filter(|s| s.len() <= MAX_INPUT).collect();
        c10_case(&ast, Fmt::Bnf, &inputs, cx).map_err(|e| format!("[size {m}, kind {}] {}", i % 8, e.chars().take(600).collect::<String>()))
    }));
    // many groups: more than a handful of introduced names, some taken by the user
    let m = tier.pick(30u64, 60);
    out.push(stage("many-groups", format!("1..{m} groups in one text, user names of the generated form at every number"), m * m, move |i, cx| {
        let (count, taken) = ((i % m) as usize + 1, (i / m) as usize);
        let mut ast: Ast = vec![("s".into(), vec![])];
        for k in 0..count {
            let x = Pt::T(format!("{k},"));
            let g = if k % 2 == 0 { Pt::G(vec![vec![x]]) } else { Pt::O(vec![vec![x.clone()], vec![Pt::G(vec![vec![x, Pt::T("!".into())]])]]) };
            if k % 5 == 4 { ast.push((format!("p{k}"), vec![vec![g]])) } else { ast[0].1.push(vec![g]) }
        }
        ast[0].1.push(vec![Pt::N(format!("__anon{taken}"))]);
        ast.push((format!("__anon{taken}"), vec![vec![Pt::T("user".into())]]));
        let mut inputs = vec!["user".to_string(), String::new()];
        inputs.extend((0..count).flat_map(|k| [format!("{k},"), format!("{k},!")]));
        c10_case(&ast, Fmt::Bnf, &inputs, cx)
    }));
    out.push(huge_groups(tier));
    out
}

// ------------------------------------------------------------------ C11

const SPECIAL: [char; 18] =
    ['a', '\'', '"', '<', '>', '|', ':', '=', ';', '(', ')', '[', ']', ' ', '\n', 'é', '/', '\\'];

fn special_strings(hi: u32) -> Vec<String> {
    let s = Seqs { radix: SPECIAL.len() as u64, lo: 0, hi };
    (0..s.count()).map(|i| s.get(i).into_iter().map(|k| SPECIAL[k]).collect()).collect()
}
fn expressible(t: &Term) -> bool {
    match t {
        Term::Terminal(s) => !(s.contains('\'') && s.contains('"')),
        Term::Nonterminal(s) => !s.contains('>'),
    }
}
fn terms_of(strings: &[String]) -> Vec<Term> {
    strings.iter().flat_map(|s| [Term::Terminal(s.clone()), Term::Nonterminal(s.clone())]).collect()
}
fn json_ok<T: serde_json_like::Both + PartialEq + std::fmt::Debug>(v: &T) -> Res {
    let s = v.to_json()?;
    let back = T::from_json(&s)?;
    if back != *v {
        return Err(format!("JSON {s} reads back as {back:?}, was {v:?}"));
    }
    Ok(())
}
mod serde_json_like {
    pub trait Both: Sized {
        fn to_json(&self) -> Result<String, String>;
        fn from_json(s: &str) -> Result<Self, String>;
    }
    macro_rules! both {
        ($($t:ty),*) => {$(impl Both for $t {
            fn to_json(&self) -> Result<String, String> { serde_json::to_string(self).map_err(|e| format!("{self:?}: {e}")) }
            fn from_json(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| format!("JSON {s}: {e}")) }
        })*};
    }
    both!(bnf::Term, bnf::Expression, bnf::Production, bnf::Grammar);
}
fn text_ok<T>(v: &T) -> Res
where
    T: std::fmt::Display + std::str::FromStr + PartialEq + std::fmt::Debug,
    T::Err: std::fmt::Display,
{
    let s = v.to_string();
    match s.parse::<T>() {
        Ok(b) if b == *v => Ok(()),
        Ok(b) => Err(format!("{v:?} is written {s:?}, which reads back as {b:?}")),
        Err(e) => Err(format!("{v:?} is written {s:?}, which is rejected: {e}")),
    }
}

pub fn c11(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let t3 = Arc::new(terms_of(&special_strings(tier.pick(3, 4))));
    {
        let t = Arc::clone(&t3);
        out.push(stage("terms", format!("every terminal and name of at most {} of {SPECIAL:?}", tier.pick(3, 4)), t.len() as u64, move |i, cx| {
            let v = &t[i as usize];
            cx.states += 1;
            cx.traces += 1;
            cx.transitions += 2;
            json_ok(v)?;
            if expressible(v) {
                cx.transitions += 3;
                text_ok(v)?;
                let e = Expression::from_parts(vec![v.clone()]);
                text_ok(&e)?;
                let p = Production::from_parts(Term::Nonterminal("n".into()), vec![e]);
                text_ok(&p)?;
                text_ok(&Grammar::from_parts(vec![p.clone()]))?;
                text_ok(&Grammar::from_parts(vec![p.clone(), p]))?;
                if let Term::Nonterminal(_) = v {
                    let p = Production::from_parts(v.clone(), vec![Expression::from_parts(vec![Term::Terminal("x".into())])]);
                    text_ok(&p)?;
                    text_ok(&Grammar::from_parts(vec![p]))?;
                }
                cx.sample(|| format!("{v:?} written as {v}"));
            }
            Ok(())
        }));
    }
    // every character, alone and within a word, as terminal and as name
    let term_all = |v: &Term, cx: &mut Cx| -> Res {
        cx.states += 1;
        cx.traces += 1;
        cx.transitions += 3;
        json_ok(v)?;
        if expressible(v) {
            text_ok(v)?;
            let lhs = if let Term::Nonterminal(_) = v { v.clone() } else { Term::Nonterminal("n".into()) };
            let e = Expression::from_parts(vec![v.clone(), Term::Terminal("x".into()), v.clone()]);
            let p = Production::from_parts(lhs, vec![e.clone(), Expression::from_parts(vec![v.clone()])]);
            let g = Grammar::from_parts(vec![p.clone(), p.clone()]);
            text_ok(&e)?;
            text_ok(&p)?;
            text_ok(&g)?;
            json_ok(&e)?;
            json_ok(&p)?;
            json_ok(&g)?;
        }
        Ok(())
    };
    out.push(stage("every-character", "every Unicode character, alone, first, last and in the middle of a terminal and of a name, in terms, expressions, productions and grammars", 0x110000 / 256, move |i, cx| {
        for c in every_char(i, 256) {
            for s in [format!("{c}"), format!("{c}b"), format!("a{c}"), format!("a{c}{c} b")] {
                for v in terms_of(&[s]) {
                    term_all(&v, cx)?;
                }
            }
        }
        Ok(())
    }));
    {
        let words = Arc::new(confusable().into_iter().chain(ODD.iter().map(|s| s.to_string())).collect::<Vec<_>>());
        let k = words.len() as u64;
        out.push(stage("odd-spellings", format!("all pairs of {k} odd spellings, joined, as terminals and names"), k * k, move |mut i, cx| {
            let a = words[digit(&mut i, k) as usize].as_str();
            let b = words[digit(&mut i, k) as usize].as_str();
            for v in terms_of(&[format!("{a}{b}"), format!("{a} {b}")]) {
                term_all(&v, cx)?;
            }
            Ok(())
        }));
    }
    {
        let words = escapes();
        let k = words.len() as u64;
        out.push(stage("escape-spellings", format!("{k} spellings that look like an escape, reference or placeholder, alone, between letters, doubled, as terminals and names"), k, move |i, cx| {
            let w = words[i as usize].as_str();
            for v in terms_of(&[w.to_string(), format!("a{w}b"), format!("{w}{w}"), format!("{w} {w}")]) {
                term_all(&v, cx)?;
            }
            Ok(())
        }));
    }
    // long lines, long texts
    let big = sizes(0, tier.pick(5000, 20000));
    out.push(stage("long", format!("terminals, names, alternatives, terms and productions of sizes around round numbers up to {}", big.last().unwrap()), big.len() as u64 * 7, move |i, cx| {
        let n = big[i as usize / 7];
        let t = |s: String| Term::Terminal(s);
        let nt = |s: &str| Term::Nonterminal(s.into());
        let words: String = "lorem ipsum  dolor | sit <amet> ; 'q' ".chars().cycle().take(n).collect();
        let one = |e: Vec<Term>| Production::from_parts(nt("s"), vec![Expression::from_parts(e)]);
        cx.states += 1;
        cx.traces += 1;
        cx.transitions += 2;
        let g = match i % 7 {
            0 => Grammar::from_parts(vec![one(vec![t(words.clone())]), one(vec![t("x".into()), t(words)])]),
            1 => {
                let name: String = words.replace('>', "}");
                Grammar::from_parts(vec![Production::from_parts(nt(&name), vec![Expression::from_parts(vec![nt(&name), t("x".into())])])])
            }
            2 => Grammar::from_parts(vec![one((0..n).map(|k| t(format!("w {}", k % 10))).collect())]),
            3 => Grammar::from_parts(vec![Production::from_parts(nt("s"), (0..n).map(|k| Expression::from_parts(vec![t(format!("w {}", k % 10)), nt("a b")])).collect())]),
            4 => Grammar::from_parts((0..n.min(2100)).map(|k| Production::from_parts(nt(&format!("p {k}")), vec![Expression::from_parts(vec![t("a b".into())])])).collect()),
            5 => Grammar::from_parts(vec![one((0..n).map(|k| if k % 2 == 0 { nt("long name") } else { t(String::new()) }).collect())]),
            _ => Grammar::from_parts(vec![one(vec![t("\n".repeat(n)), t(" ".repeat(n)), t("'".repeat(n)), t("\"".repeat(n)), t("\\".repeat(n)), nt(&" ".repeat(n))])]),
        };
        text_ok(&g).map_err(|e| format!("size {n}, kind {}: {}", i % 7, e.chars().take(400).collect::<String>()))?;
        json_ok(&g).map_err(|e| format!("size {n}, kind {}: {}", i % 7, e.chars().take(400).collect::<String>()))?;
        for p in g.productions_iter().take(2) {
            text_ok(p).map_err(|e| format!("production, size {n}, kind {}: {}", i % 7, e.chars().take(400).collect::<String>()))?;
            for e in p.rhs_iter().take(2) {
                text_ok(e).map_err(|e| format!("expression, size {n}, kind {}: {}", i % 7, e.chars().take(400).collect::<String>()))?;
                for t in e.terms_iter().take(2) {
                    text_ok(t).map_err(|e| format!("term, size {n}, kind {}: {}", i % 7, e.chars().take(400).collect::<String>()))?;
                }
            }
        }
        Ok(())
    }));
    // pairs of terms next to each other, as alternatives, in neighbouring productions
    let t2 = Arc::new(terms_of(&special_strings(tier.pick(1, 2))));
    {
        let t = Arc::clone(&t2);
        let n = t.len() as u64;
        out.push(stage("pairs", format!("every pair of terms of at most {} special characters in a sequence, as alternatives, across productions", tier.pick(1, 2)), n * n, move |i, cx| {
            let (a, b) = (t[(i % n) as usize].clone(), t[(i / n) as usize].clone());
            let name = Term::Nonterminal("n".into());
            let e = |v: &[&Term]| Expression::from_parts(v.iter().map(|t| (*t).clone()).collect());
            let e2 = e(&[&a, &b]);
            let p2 = Production::from_parts(name.clone(), vec![e(&[&a]), e(&[&b])]);
            let g2 = Grammar::from_parts(vec![
                Production::from_parts(name.clone(), vec![e2.clone()]),
                Production::from_parts(if let Term::Nonterminal(_) = b { b.clone() } else { name.clone() }, vec![e(&[&a])]),
                p2.clone(),
            ]);
            cx.states += 1;
            cx.traces += 1;
            cx.transitions += 6;
            json_ok(&e2)?;
            json_ok(&p2)?;
            json_ok(&g2)?;
            if expressible(&a) && expressible(&b) {
                text_ok(&e2)?;
                text_ok(&p2)?;
                text_ok(&g2)?;
            }
            Ok(())
        }));
    }
    // all small grammars over tricky pieces
    let pieces: Arc<Vec<Term>> = Arc::new(vec![
        Term::Terminal("".into()),
        Term::Terminal("it's".into()),
        Term::Terminal("\"q\" ::= <x> | ;".into()),
        Term::Nonterminal("".into()),
        Term::Nonterminal("a ::= 'b' ;c\n(".into()),
        Term::Terminal("'".into()),
        Term::Nonterminal("__anon0".into()),
    ]);
    let seqs = Seqs { radix: 8, lo: 1, hi: tier.pick(4, 5) };
    out.push(stage("shapes", format!("every grammar text of at most {} of 7 tricky terms and alternative/production breaks", seqs.hi), seqs.count() * 3, move |i, cx| {
        let brk = i % 3; // what the break symbol means
        let lhs = [Term::Nonterminal("s".into()), Term::Nonterminal("q'\"".into()), Term::Nonterminal("".into())][(i % 3) as usize].clone();
        let mut prods: Vec<Vec<Vec<Term>>> = vec![vec![vec![]]];
        for k in seqs.get(i / 3) {
            if k == 7 {
                let n = prods.len();
                if brk == 0 || (brk == 2 && prods[n - 1].len() % 2 == 0) { prods.push(vec![vec![]]) } else { prods[n - 1].push(vec![]) }
            } else {
                prods.last_mut().unwrap().last_mut().unwrap().push(pieces[k].clone());
            }
        }
        let has_empty = prods.iter().flatten().any(|e| e.is_empty());
        let g = Grammar::from_parts(prods.into_iter().map(|p| Production::from_parts(lhs.clone(), p.into_iter().map(Expression::from_parts).collect())).collect());
        cx.states += 1;
        cx.transitions += 1;
        cx.traces += 1;
        json_ok(&g)?;
        if !has_empty {
            cx.transitions += 1;
            text_ok(&g)?;
            for p in g.productions_iter() {
                text_ok(p)?;
            }
        }
        Ok(())
    }));
    // scale
    let m = tier.pick(80u64, 300);
    out.push(stage("scaled", format!("1..{m} productions / alternatives / terms / characters"), m, move |i, cx| {
        let n = i as usize + 1;
        let t = |k: usize| if k % 4 == 3 { Term::Nonterminal(format!("n {k}")) } else { Term::Terminal(format!("{}{k}", if k % 2 == 0 { "'" } else { "\"" })) };
        let long: String = SPECIAL.iter().filter(|c| **c != '>' && **c != '"').cycle().take(n).collect();
        let e = Expression::from_parts((0..n).map(t).collect());
        let p = Production::from_parts(Term::Nonterminal(long.clone()), (0..n).map(|k| Expression::from_parts(vec![t(k), Term::Terminal(long.clone())])).collect());
        let g = Grammar::from_parts((0..n).map(|k| Production::from_parts(Term::Nonterminal(format!("p{k}")), vec![Expression::from_parts(vec![t(k)]), e.clone()])).collect());
        cx.states += 3;
        cx.transitions += 6;
        cx.traces += 3;
        text_ok(&e)?;
        text_ok(&p)?;
        text_ok(&g)?;
        json_ok(&e)?;
        json_ok(&p)?;
        json_ok(&g)?;
        text_ok(&Term::Terminal(long.clone()))?;
        text_ok(&Term::Nonterminal(long))
    }));
    out.push(huge_values(tier));
    out
}

// ------------------------------------------------------------------ sizes far beyond ordinary texts

const HUGE_KINDS: usize = 26;

/// One text of size `n`, one dimension blown up; well-formed or broken at its far end.
fn huge_text(f: Fmt, kind: usize, n: usize) -> String {
    let nt = |s: &str| f.delim().map_or(s.to_string(), |(o, c)| format!("{o}{s}{c}"));
    let (sep, bar) = (f.sep(), f.alt());
    let a = nt("a");
    let item = |i: usize| if i % 3 == 2 { nt(&format!("n{i}")) } else if i % 3 == 1 { format!("\"t{i}\"") } else { format!("'t{i}'") };
    let list = |by: &str| -> String { (0..n).map(item).collect::<Vec<_>>().join(by) };
    let long = |n: usize| -> String { (0..n).map(|i| if i % 61 == 60 { 'z' } else { (b'a' + (i % 26) as u8) as char }).collect() };
    let alts = format!(" {bar} ");
    match kind {
        0 => (0..n).map(|i| format!("{} {sep} 't{i}'\n", nt(&format!("n{i}")))).collect(),
        1 => format!("{a} {sep} {}", list(&alts)),
        2 => format!("{a} {sep} {}", list(" ")),
        3 => format!("{a} {sep} 'p' ({}) 'q'", list(&alts)),
        4 => format!("{a} {sep} 'p' [{}] 'q'", list(&alts)),
        5 => format!("{a} {sep} ({})\n{} {sep} 'y'", list(" "), nt("b")),
        6 => format!("{a} {sep} '{}' 'q'", long(n)),
        7 => format!("{a} {sep} 'p' \"{}\"", long(n)),
        8 => format!("{} {sep} {} 'q'", nt(&long(n)), nt(&long(n - 1))),
        9 => format!(";{}\n{a} {sep} 'x'", long(n)),
        10 => format!("{a} {sep} 'x' ;{}\n{} {sep} 'y'", "('|".repeat(n / 3), nt("b")),
        11 => format!("{a} {sep} 'x' ;{}", long(n)),
        12 => format!("{a} {sep}{}'x'{}", " ".repeat(n), "\n".repeat(n)),
        13 => format!("{a}{}{sep} 'x'", "\t".repeat(n)),
        14 => format!("{}{a} {sep} 'x'", "\r\n".repeat(n)),
        15 => format!("{a} {sep} 'x'\n{}{} {sep} 'y'", "; c\n".repeat(n), nt("b")),
        16 => format!("{a} {sep} ('x'{}{bar}{}'y')", " ".repeat(n), "\n".repeat(n)),
        // broken at the far end
        17 => format!("{a} {sep} '{}", long(n)),
        18 => format!("{a} {sep} 'x' \"{}'", long(n)),
        19 => format!("{a} {sep} {}{alts}", list(&alts)),
        20 => format!("{a} {sep} ({}", list(&alts)),
        21 => format!("{a} {sep} {} ]", list(" ")),
        22 => (0..n).map(|i| format!("{} {sep} 't{i}'\n", nt(&format!("n{i}")))).collect::<String>() + sep,
        23 => format!("{a} {sep} 'x'{})", " ".repeat(n)),
        24 => format!("{a} {sep} ;{}\n", long(n)),
        _ => format!("{a} {sep} 'x' {}{}", f.delim().map_or(String::new(), |(o, _)| o.to_string()), long(n)),
    }
}

fn huge_texts(tier: Tier) -> Stage {
    let ns = huge(tier);
    let k = HUGE_KINDS as u64;
    stage("huge-texts", format!("{HUGE_KINDS} dimensions, {} sizes up to {}, both notations", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * k * 2, move |mut i, cx| {
        let kind = digit(&mut i, k) as usize;
        let f = if digit(&mut i, 2) == 0 { Fmt::Bnf } else { Fmt::Abnf };
        let n = ns[i as usize];
        check_text(&huge_text(f, kind, n), if f == Fmt::Bnf { 3 } else { 5 }, cx).map_err(|e| format!("[kind {kind}, size {n}] {}", e.chars().take(300).collect::<String>()))
    })
    .soft()
}

fn huge_parts(tier: Tier) -> Stage {
    let ns = huge(tier);
    let k = HUGE_KINDS as u64;
    stage("huge-parts", format!("{HUGE_KINDS} dimensions, {} sizes up to {}: terms, expressions and productions", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * k, move |mut i, cx| {
        let kind = digit(&mut i, k) as usize;
        let n = ns[i as usize];
        let text = huge_text(Fmt::Bnf, kind, n);
        let say = |e: String| format!("[kind {kind}, size {n}] {}", e.chars().take(300).collect::<String>());
        check_parts(&text, cx).map_err(say)?;
        if let Some((l, rhs)) = text.split_once("::=") {
            for part in [rhs, rhs.trim(), l.trim()] {
                check_parts(part, cx).map_err(say)?;
            }
            // one term, whatever its size
            if let Some(last) = rhs.trim().split(['\n', ' ']).max_by_key(|s| s.len()) {
                check_parts(last, cx).map_err(say)?;
                check_parts(&format!("{last} "), cx).map_err(say)?;
                check_parts(&format!("{last}x"), cx).map_err(say)?;
            }
        }
        Ok(())
    })
    .soft()
}

fn huge_gaps(tier: Tier) -> Stage {
    let ns = huge(tier);
    let t = |s: &str| Pt::T(s.into());
    let n = |s: &str| Pt::N(s.into());
    let ast: Ast = vec![
        ("s".into(), vec![vec![t("x"), n("b")], vec![Pt::G(vec![vec![t("y")], vec![n("s")]]), Pt::O(vec![vec![t("z")]])]]),
        ("b".into(), vec![vec![t("w")]]),
    ];
    stage("huge-gaps", format!("7 gaps of {} sizes up to {} at every token boundary and at all of them, both notations", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 14, move |mut i, cx| {
        let f = if digit(&mut i, 2) == 0 { Fmt::Bnf } else { Fmt::Abnf };
        let kind = digit(&mut i, 7);
        let n = ns[i as usize];
        let gap: String = match kind {
            0 => " ".repeat(n),
            1 => "\n".repeat(n),
            2 => format!(";{}\n", "c".repeat(n - 1)),
            3 => format!(";{}\r\n", "'(".repeat(n / 2)),
            4 => ";\n".repeat(n / 2),
            5 => format!("{}; c\n{}", "\t".repeat(n), " ".repeat(n)),
            _ => format!(";{}é😀\n\n", "; ".repeat(n / 2)),
        };
        let toks = render_tokens(&ast, f, &mut single_quotes);
        let base = lay_out(&toks, &|_| " ");
        let want: Grammar = base.parse().map_err(|e| format!("{base:?} rejected: {e}"))?;
        let say = |e: String| format!("[gap {kind}, size {n}] {}", e.chars().take(300).collect::<String>());
        for at in 0..=toks.len() {
            let pieces: Vec<String> = (0..=toks.len()).map(|j| if j == at { gap.clone() } else { " ".into() }).collect();
            expect_same(&ast, &join(&toks, &pieces), &want, cx).map_err(say)?;
        }
        if n <= 20_000 {
            expect_same(&ast, &join(&toks, &vec![gap; toks.len() + 1]), &want, cx).map_err(say)?;
        }
        Ok(())
    })
    .soft()
}

fn join(toks: &[(String, bool)], gaps: &[String]) -> String {
    let mut s = gaps[0].clone();
    for (k, (t, name)) in toks.iter().enumerate() {
        s.push_str(t);
        let gap = &gaps[k + 1];
        if *name && !gap.starts_with(char::is_whitespace) {
            s.push(' ');
        }
        s.push_str(gap);
    }
    s
}

fn huge_values(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-values", format!("7 dimensions, {} sizes up to {}: text and JSON round trip", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 7, move |mut i, cx| {
        let kind = digit(&mut i, 7);
        let n = ns[i as usize];
        let t = |s: String| Term::Terminal(s);
        let nt = |s: String| Term::Nonterminal(s);
        let words: String = "lorem ipsum  dolor | sit [amet] ; 'q' \n é".chars().cycle().take(n).collect();
        let one = |l: &str, e: Vec<Term>| Production::from_parts(nt(l.into()), vec![Expression::from_parts(e)]);
        let g = match kind {
            0 => Grammar::from_parts(vec![one("s", vec![t(words.clone()), t("x".into())])]),
            1 => Grammar::from_parts(vec![one(&words, vec![nt(words.clone()), t("x".into())])]),
            2 => Grammar::from_parts(vec![one("s", (0..n).map(|k| if k % 2 == 0 { t(format!("w {k}")) } else { nt(format!("n {k}")) }).collect())]),
            3 => Grammar::from_parts(vec![Production::from_parts(nt("s".into()), (0..n).map(|k| Expression::from_parts(vec![t(format!("w {k}"))])).collect())]),
            4 => Grammar::from_parts((0..n).map(|k| one(&format!("p {k}"), vec![t("a b".into())])).collect()),
            5 => Grammar::from_parts(vec![one("s", vec![t(" ".repeat(n)), t("\n".repeat(n)), t("\"".repeat(n)), t("'".repeat(n))])]),
            _ => Grammar::from_parts((0..n / 4).map(|k| one("s", vec![nt("s".into()), t(format!("\"{k}"))])).collect()),
        };
        cx.states += 1;
        cx.traces += 1;
        cx.transitions += 4;
        let say = |e: String| format!("[kind {kind}, size {n}] {}", e.chars().take(300).collect::<String>());
        text_ok(&g).map_err(say)?;
        json_ok(&g).map_err(say)?;
        let p = g.productions_iter().next().unwrap();
        text_ok(p).map_err(say)?;
        json_ok(p).map_err(say)?;
        let e = p.rhs_iter().next().unwrap();
        text_ok(e).map_err(say)?;
        json_ok(e).map_err(say)?;
        for x in e.terms_iter().take(2) {
            text_ok(x).map_err(say)?;
            json_ok(x).map_err(say)?;
        }
        Ok(())
    })
    .soft()
}

/// Structure only (the language of such a text is checked at smaller sizes): each group keeps its
/// alternatives, fresh names stay fresh.
fn huge_groups(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-groups", format!("5 dimensions, {} sizes up to {}", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 5, move |mut i, cx| {
        let kind = digit(&mut i, 5);
        let n = ns[i as usize];
        let w = |k: usize| Pt::T(format!("{k},"));
        let small = n / 8;
        let ast: Ast = match kind {
            0 => vec![("s".into(), vec![vec![Pt::G((0..n).map(|k| vec![w(k)]).collect()), Pt::O((0..n).map(|k| vec![w(k), w(0)]).collect())]])],
            1 => vec![("s".into(), (0..small).map(|k| vec![Pt::G(vec![vec![w(k)], vec![w(k + 1)]])]).collect())],
            2 => vec![("s".into(), vec![(0..small).map(|k| Pt::O(vec![vec![w(k)]])).collect()])],
            3 => (0..small).map(|k| (format!("p{k}"), vec![vec![Pt::G(vec![vec![w(k)], vec![Pt::N(format!("p{}", (k + 1) % small))]])]])).collect(),
            _ => vec![("s".into(), vec![vec![Pt::G(vec![(0..n).map(w).collect(), vec![Pt::O(vec![(0..n).map(w).collect()])]])]])],
        };
        let toks = render_tokens(&ast, Fmt::Bnf, &mut single_quotes);
        let text = lay_out(&toks, &|_| " ");
        let g: Grammar = text.parse().map_err(|e: bnf::Error| format!("[kind {kind}, size {n}] rejected: {}", e.to_string().chars().take(200).collect::<String>()))?;
        cx.states += 1;
        cx.traces += 1;
        cx.transitions += 1;
        same_structure(&ast, &g).map_err(|e| format!("[kind {kind}, size {n}] {}", e.chars().take(300).collect::<String>()))
    })
    .soft()
}
