//! C07 (validation), C20/C21 (tree rendering), C22 (editing).
use crate::refg::{Rec, Rg};
use crate::run::*;
use crate::uni;
use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn t(s: &str) -> Term {
    Term::Terminal(s.into())
}
fn n(s: &str) -> Term {
    Term::Nonterminal(s.into())
}

// ---------------------------------------------------------------- C07

type Plain = Vec<(Term, Vec<Vec<Term>>)>;

fn build(p: &Plain) -> Grammar {
    Grammar::from_parts(
        p.iter()
            .map(|(l, alts)| Production::from_parts(l.clone(), alts.iter().map(|a| Expression::from_parts(a.clone())).collect()))
            .collect(),
    )
}

/// None: valid. Some(set): the undefined nonterminals (empty set: no productions).
fn undefined(p: &Plain) -> Option<BTreeSet<String>> {
    if p.is_empty() {
        return Some(BTreeSet::new());
    }
    let def: BTreeSet<&String> = p.iter().filter_map(|(l, _)| if let Term::Nonterminal(x) = l { Some(x) } else { None }).collect();
    let mut bad = BTreeSet::new();
    for (_, alts) in p {
        for term in alts.iter().flatten() {
            if let Term::Nonterminal(x) = term
                && !def.contains(x)
            {
                bad.insert(x.clone());
            }
        }
    }
    if bad.is_empty() { None } else { Some(bad) }
}

fn validate_case(p: &Plain, cx: &mut Cx) -> Res {
    let g = build(p);
    let want = undefined(p);
    let show = || format!("{p:?}");
    cx.states += 1;
    cx.transitions += 2;
    let results: [(&str, Result<(), bnf::Error>); 2] = [("validate", g.validate()), ("build_parser", g.build_parser().map(|_| ()))];
    for (how, r) in results {
        match (&want, r) {
            (None, Ok(())) => {}
            (None, Err(e)) => return Err(format!("{}: {how} rejects a grammar whose nonterminals are all defined: {e:?}", show())),
            (Some(bad), Ok(())) => return Err(format!("{}: {how} accepts although {bad:?} are undefined or there is no production", show())),
            (Some(bad), Err(bnf::Error::ValidationError(msg))) => {
                if !bad.is_empty() && !bad.iter().any(|x| msg.contains(&format!("<{x}>"))) {
                    return Err(format!("{}: {how} says {msg:?}, which names none of {bad:?}", show()));
                }
                // no defined nonterminal may be blamed, unless its name also occurs inside an undefined one's
                if bad.is_empty() && msg.contains('<') {
                    return Err(format!("{}: {how} blames a nonterminal of an empty grammar: {msg:?}", show()));
                }
                for (l, _) in p {
                    if let Term::Nonterminal(x) = l
                        && msg.contains(&format!("<{x}>"))
                        && !bad.iter().any(|b| format!("<{b}>").contains(&format!("<{x}>")))
                    {
                        return Err(format!("{}: {how} blames the defined nonterminal {x:?}: {msg:?}", show()));
                    }
                }
            }
            (Some(_), Err(e)) => return Err(format!("{}: {how} returns another kind of error: {e:?}", show())),
        }
    }
    cx.traces += 2;
    cx.bump(if want.is_none() { "valid_grammars" } else { "invalid_grammars" }, 1);
    cx.sample(|| format!("{p:?} -> undefined {want:?}"));
    Ok(())
}

pub fn c07(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    // alternatives over nonterminals a, b, c and a terminal spelled like one
    let terms = Arc::new([n("a"), n("b"), n("c"), t("a")]);
    let exprs = Seqs { radix: 4, lo: 0, hi: 2 };
    let alts = Seqs { radix: exprs.count(), lo: 0, hi: 1 };
    let lhss = Arc::new([n("a"), n("b"), t("a"), t("c")]);
    let one = alts.count() * 4; // productions
    let prods = Seqs { radix: one, lo: 0, hi: tier.pick(2, 3) };
    {
        let (terms, lhss) = (Arc::clone(&terms), Arc::clone(&lhss));
        out.push(stage("small-grammars", "0..2 productions (nonterminal or terminal left-hand side), 0..1 alternatives of 0..2 terms over 3 names", prods.count(), move |i, cx| {
            let p: Plain = prods
                .get(i)
                .into_iter()
                .map(|k| {
                    let mut k = k as u64;
                    let l = lhss[digit(&mut k, 4) as usize].clone();
                    let a = alts.get(k).into_iter().map(|e| exprs.get(e as u64).into_iter().map(|x| terms[x].clone()).collect()).collect();
                    (l, a)
                })
                .collect();
            validate_case(&p, cx)
        }));
    }
    // many productions of few symbols: any order, any duplication
    let kinds: Arc<Vec<(Term, Vec<Vec<Term>>)>> = Arc::new(vec![
        (n("a"), vec![vec![n("b")]]),
        (n("b"), vec![vec![t("x")]]),
        (n("a"), vec![]),
        (n("b"), vec![vec![]]),
        (n("c"), vec![vec![t("x")], vec![n("a")]]),
        (n("b"), vec![vec![t("x"), n("c")], vec![n("b"), n("b")]]),
        (t("b"), vec![vec![t("y")]]),
        (n("a"), vec![vec![t("x")], vec![t("y"), t("z")], vec![t("x"), n("d")]]),
    ]);
    let seq = Seqs { radix: kinds.len() as u64, lo: 1, hi: tier.pick(5, 6) };
    out.push(stage("orders-and-duplicates", "all sequences of 1..5 productions out of 8", seq.count(), move |i, cx| {
        let p: Plain = seq.get(i).into_iter().map(|k| kinds[k].clone()).collect();
        validate_case(&p, cx)
    }));
    // names that are easily confused
    let names = ["a", "A", " a", "a ", "", "ab", "é", "e\u{301}", "<a>", "a b", "ａ", "\n", "0", "::="];
    let nn = names.len() as u64;
    out.push(stage("confusable-names", "14 × 14 × 14 names defined, used and otherwise present", nn * nn * nn, move |mut i, cx| {
        let (d, u, o) = (names[digit(&mut i, nn) as usize], names[digit(&mut i, nn) as usize], names[digit(&mut i, nn) as usize]);
        validate_case(&vec![(n(d), vec![vec![n(u)], vec![t(o)]]), (n(o), vec![vec![t(u), n(d)]])], cx)
    }));
    // one undefined use at every place of a large grammar
    let max = tier.pick(48u64, 140);
    out.push(stage("one-undefined-anywhere", format!("n <= {max} productions of 3 alternatives of 2 terms: no use or one use undefined, at every place"), max, move |i, cx| {
        let k = i as usize + 1;
        let base: Plain = (0..k)
            .map(|j| {
                let x = |d: usize| n(&format!("s{}", (j + d) % k));
                (n(&format!("s{j}")), vec![vec![x(1), t("t")], vec![x(2), x(3)], vec![t("t"), x(0)]])
            })
            .collect();
        validate_case(&base, cx)?;
        for j in 0..k {
            for (a, b) in [(0, 0), (1, 0), (1, 1), (2, 1)] {
                let mut p = base.clone();
                p[j].1[a][b] = n("s");
                validate_case(&p, cx)?;
            }
            // one definition missing or turned into a terminal's
            let mut p = base.clone();
            p[j].0 = t(&format!("s{j}"));
            validate_case(&p, cx)?;
            if k > 1 {
                let mut p = base.clone();
                p.remove(j);
                validate_case(&p, cx)?;
            }
        }
        Ok(())
    }));
    // wide alternatives
    let w = tier.pick(80u64, 300);
    out.push(stage("wide-rules", format!("one rule of 1..{w} alternatives or terms with the undefined use at every place"), w, move |i, cx| {
        let k = i as usize + 1;
        for j in 0..=k {
            let pick = |x: usize| if x == j { n("missing") } else { n("s") };
            validate_case(&vec![(n("s"), (0..k).map(|x| vec![pick(x)]).collect())], cx)?;
            validate_case(&vec![(n("s"), vec![(0..k).map(pick).collect()])], cx)?;
        }
        Ok(())
    }));
    out.push(confusable_pairs());
    // names that mean something elsewhere mean nothing here
    let words: Vec<String> = crate::odd::escapes().into_iter().chain(crate::odd::ODD.iter().map(|s| s.to_string())).collect();
    out.push(stage("odd-names", format!("{} odd or reserved names: undefined, defined, defined as a terminal, next to another one", words.len()), words.len() as u64, move |i, cx| {
        let w = &words[i as usize];
        let other = &words[(i as usize * 7 + 1) % words.len()];
        validate_case(&vec![(n("s"), vec![vec![n(w)]])], cx)?;
        validate_case(&vec![(n("s"), vec![vec![t(w), n(w)], vec![t("x")]]), (t(w), vec![vec![t("x")]])], cx)?;
        validate_case(&vec![(n("s"), vec![vec![t("x"), n(w)]]), (n(w), vec![vec![t(w)]])], cx)?;
        validate_case(&vec![(n(w), vec![vec![n(w)], vec![n(other)]])], cx)?;
        validate_case(&vec![(n(w), vec![vec![n(other)]]), (n(other), vec![vec![n("__anon0")], vec![t("x")]])], cx)
    }));
    out.push(near_names(tier));
    out.push(huge_grammars(tier));
    out
}

// ---------------------------------------------------------------- trees for C20/C21

/// A tree of our own: what the rendering must show.
#[derive(Clone, Debug)]
pub enum Tr {
    Leaf(String),
    Node(String, Vec<Tr>),
}

impl Tr {
    pub fn of(p: &ParseTree) -> Tr {
        let Term::Nonterminal(l) = p.lhs else { panic!("tree rooted at a terminal") };
        Tr::Node(
            l.clone(),
            p.rhs_iter()
                .map(|c| match c {
                    ParseTreeNode::Terminal(s) => Tr::Leaf(s.to_string()),
                    ParseTreeNode::Nonterminal(q) => Tr::of(q),
                })
                .collect(),
        )
    }
    fn text(&self) -> String {
        let mut out = String::new();
        // (node, is_last per ancestor level)
        fn go(x: &Tr, last: &mut Vec<bool>, out: &mut String) {
            for (i, l) in last.iter().enumerate() {
                out.push_str(match (i + 1 == last.len(), *l) {
                    (true, true) => "└── ",
                    (true, false) => "├── ",
                    (false, true) => "    ",
                    (false, false) => "│   ",
                });
            }
            match x {
                Tr::Leaf(s) => {
                    out.push('"');
                    out.push_str(s);
                    out.push_str("\"\n");
                }
                Tr::Node(l, kids) => {
                    out.push_str(&format!("<{l}> ::="));
                    for k in kids {
                        match k {
                            Tr::Leaf(s) => out.push_str(&format!(" \"{s}\"")),
                            Tr::Node(l, _) => out.push_str(&format!(" <{l}>")),
                        }
                    }
                    out.push('\n');
                    for (i, k) in kids.iter().enumerate() {
                        last.push(i + 1 == kids.len());
                        go(k, last, out);
                        last.pop();
                    }
                }
            }
        }
        go(self, &mut vec![], &mut out);
        out
    }
    /// Edges of the tree in pre-order with labels.
    fn edges(&self) -> Vec<(usize, String, usize, String)> {
        let mut out = vec![];
        fn label(x: &Tr) -> &String {
            match x {
                Tr::Leaf(s) => s,
                Tr::Node(l, _) => l,
            }
        }
        fn go(x: &Tr, me: usize, next: &mut usize, out: &mut Vec<(usize, String, usize, String)>) {
            if let Tr::Node(l, kids) = x {
                for k in kids {
                    *next += 1;
                    let id = *next;
                    out.push((me, l.clone(), id, label(k).clone()));
                    go(k, id, next, out);
                }
            }
        }
        go(self, 0, &mut 0, &mut out);
        out
    }
    fn size(&self) -> usize {
        match self {
            Tr::Leaf(_) => 1,
            Tr::Node(_, k) => 1 + k.iter().map(Tr::size).sum::<usize>(),
        }
    }
    /// A grammar with one production per node, and the input, whose only parse is this tree
    /// (node labels must be distinct).
    fn grammar(&self) -> (Grammar, String) {
        let mut prods = vec![];
        let mut input = String::new();
        fn go(x: &Tr, prods: &mut Vec<Production>, input: &mut String) {
            match x {
                Tr::Leaf(s) => input.push_str(s),
                Tr::Node(l, kids) => {
                    prods.push(Production::from_parts(
                        Term::Nonterminal(l.clone()),
                        vec![Expression::from_parts(
                            kids.iter()
                                .map(|k| match k {
                                    Tr::Leaf(s) => Term::Terminal(s.clone()),
                                    Tr::Node(l, _) => Term::Nonterminal(l.clone()),
                                })
                                .collect(),
                        )],
                    ));
                    for k in kids {
                        go(k, prods, input);
                    }
                }
            }
        }
        go(self, &mut prods, &mut input);
        (Grammar::from_parts(prods), input)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Render {
    Text,
    Mermaid,
}

fn escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '"' | '&' | '#' | '<' | '>' | '[' | ']' | '\\' | ';' | '\n' | '\r' => out.push_str(&format!("#{};", c as u32)),
            c => out.push(c),
        }
    }
    out
}

/// Decode the numeric entities of a label; None when a character that must be escaped is bare.
fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '#' {
            let end = rest.find(';')?;
            let code: u32 = rest[1..end].parse().ok()?;
            out.push(char::from_u32(code)?);
            rest = &rest[end + 1..];
        } else if "\"&<>[]\\;\n\r".contains(c) {
            return None;
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    Some(out)
}

fn mermaid_end(s: &str) -> Option<(usize, String, &str)> {
    let open = s.find("[\"")?;
    let id: usize = s[..open].parse().ok()?;
    let rest = &s[open + 2..];
    let close = rest.find("\"]")?;
    Some((id, unescape(&rest[..close])?, &rest[close + 2..]))
}

fn check_mermaid(text: &str, tree: &Tr) -> Res {
    let mut lines = text.split('\n');
    if lines.next() != Some("flowchart TD") {
        return Err(format!("the first line is not the flowchart header: {text:?}"));
    }
    let mut got = vec![];
    let mut rest: Vec<&str> = lines.collect();
    if rest.last() == Some(&"") {
        rest.pop();
    }
    for l in rest {
        let parsed = mermaid_end(l).and_then(|(a, al, r)| {
            let r = r.strip_prefix(" --> ")?;
            let (b, bl, r) = mermaid_end(r)?;
            r.is_empty().then_some((a, al, b, bl))
        });
        match parsed {
            Some(e) => got.push(e),
            None => return Err(format!("line {l:?} is not an edge between labelled nodes")),
        }
    }
    let want = tree.edges();
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        if w != g {
            return Err(format!("edge {i} is {g:?}, expected {w:?}"));
        }
    }
    if want.len() != got.len() {
        return Err(format!("{} edges, expected {}", got.len(), want.len()));
    }
    // and the escaped form itself
    let mut exact = String::from("flowchart TD\n");
    for (a, al, b, bl) in want {
        exact.push_str(&format!("{a}[\"{}\"] --> {b}[\"{}\"]\n", escape(&al), escape(&bl)));
    }
    if exact != text {
        return Err(format!("rendering {text:?}, expected {exact:?}"));
    }
    Ok(())
}

fn check_render(what: Render, p: &ParseTree, tree: &Tr) -> Res {
    match what {
        Render::Text => {
            let got = p.to_string();
            let want = tree.text();
            if got != want {
                return Err(format!("prints\n{got}expected\n{want}"));
            }
            if format!("{p}") != want {
                return Err("prints differently the second time".into());
            }
        }
        Render::Mermaid => {
            let got = p.mermaid().to_string();
            check_mermaid(&got, tree)?;
            let m = p.mermaid();
            if m.to_string() != got || m.to_string() != got {
                return Err("renders differently the second time".into());
            }
        }
    }
    Ok(())
}

fn render_case(what: Render, tree: &Tr, cx: &mut Cx) -> Res {
    let (g, input) = tree.grammar();
    let parser = g.build_parser().map_err(|e| format!("{e}"))?;
    let Some(p) = parser.parse_input(&input).next() else { return Err(format!("no parse for {tree:?}")) };
    let own = Tr::of(&p);
    if own.text() != tree.text() {
        // which tree comes out of the parser is other properties' business
        cx.bump("skipped_unexpected_tree", 1);
        return check_render(what, &p, &own);
    }
    cx.states += 1;
    cx.transitions += tree.size() as u64;
    cx.traces += 1;
    check_render(what, &p, &own)?;
    // edited through the mutable iterator: swapped children, a child replaced by another
    let mut q = p.clone();
    if q.rhs_iter().count() >= 2 {
        let kids: Vec<ParseTreeNode> = q.rhs_iter().cloned().collect();
        let k = kids.len();
        for (i, c) in q.rhs_iter_mut().enumerate() {
            *c = kids[(i + 1) % k].clone();
        }
        check_render(what, &q, &Tr::of(&q)).map_err(|e| format!("children rotated: {e}"))?;
        for c in q.rhs_iter_mut() {
            *c = kids[k - 1].clone();
        }
        check_render(what, &q, &Tr::of(&q)).map_err(|e| format!("children all replaced: {e}"))?;
        cx.transitions += 2;
        check_render(what, &p, &own).map_err(|e| format!("after a clone was edited: {e}"))?;
    }
    // and subtrees on their own
    for c in p.rhs_iter() {
        if let ParseTreeNode::Nonterminal(s) = c {
            check_render(what, s, &Tr::of(s)).map_err(|e| format!("subtree: {e}"))?;
        }
    }
    Ok(())
}

/// All ordered forests with `n` nodes; leaves are terminals or nodes without children.
fn forests(n: usize, memo: &mut HashMap<usize, Vec<Vec<Shape>>>) -> Vec<Vec<Shape>> {
    if n == 0 {
        return vec![vec![]];
    }
    if let Some(v) = memo.get(&n) {
        return v.clone();
    }
    let mut out = vec![];
    for first in 1..=n {
        let mut heads: Vec<Shape> = forests(first - 1, memo).into_iter().map(Shape::Node).collect();
        if first == 1 {
            heads.push(Shape::Leaf);
        }
        let rests = forests(n - first, memo);
        for h in &heads {
            for r in &rests {
                let mut v = vec![h.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    memo.insert(n, out.clone());
    out
}

#[derive(Clone, Debug)]
enum Shape {
    Leaf,
    Node(Vec<Shape>),
}

fn label_shape(s: &Shape, names: &dyn Fn(usize) -> String, leaves: &dyn Fn(usize) -> String, next: &mut usize) -> Tr {
    let me = *next;
    *next += 1;
    match s {
        Shape::Leaf => Tr::Leaf(leaves(me)),
        Shape::Node(k) => Tr::Node(names(me), k.iter().map(|c| label_shape(c, names, leaves, next)).collect()),
    }
}

/// Deep trees: at every level a pattern of siblings left and right of the continuing child.
fn deep(depth: usize, pattern: u64) -> Tr {
    fn go(d: usize, depth: usize, mut p: u64) -> Tr {
        let name = format!("n{d}");
        if d == depth {
            return Tr::Node(name, vec![]);
        }
        // two bits per level, repeating
        let bits = p & 3;
        p = p.rotate_right(2);
        let mut kids = vec![];
        if bits & 1 != 0 {
            kids.push(Tr::Leaf(format!("l{d}")));
        }
        kids.push(go(d + 1, depth, p));
        if bits & 2 != 0 {
            kids.push(if d % 2 == 0 { Tr::Leaf(format!("r{d}")) } else { Tr::Node(format!("e{d}"), vec![Tr::Leaf("x".into())]) });
        }
        Tr::Node(name, kids)
    }
    go(0, depth, pattern)
}

pub fn rendering(what: Render, tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let mut memo = HashMap::new();
    let max = tier.pick(8, 10);
    let mut shapes: Vec<Shape> = vec![];
    for k in 0..max {
        shapes.extend(forests(k, &mut memo).into_iter().map(Shape::Node));
    }
    let shapes = Arc::new(shapes);
    let ns = shapes.len() as u64;
    out.push(stage("all-shapes", format!("every ordered tree of 1..{max} nodes, leaves terminals or empty nodes"), ns, move |i, cx| {
        let tree = label_shape(&shapes[i as usize], &|k| format!("n{k}"), &|k| format!("t{k}"), &mut 0);
        cx.sample(|| tree.text());
        render_case(what, &tree, cx)
    }));
    // branch patterns at depth d: every combination of earlier and later siblings
    let dmax = tier.pick(8u32, 10);
    let total: u64 = (0..=dmax).map(|d| 4u64.pow(d)).sum();
    out.push(stage("branch-patterns", format!("chains of depth 0..{dmax} with every combination of earlier and later siblings per level"), total, move |i, cx| {
        let mut d = 0;
        let mut i = i;
        while i >= 4u64.pow(d) {
            i -= 4u64.pow(d);
            d += 1;
        }
        render_case(what, &deep(d as usize, i), cx)
    }));
    let deepest = tier.pick(260u64, 520);
    out.push(stage("deep-trees", format!("chains of depth 0..{deepest} with 8 repeating patterns of siblings"), deepest * 8, move |i, cx| {
        let pats = [0u64, u64::MAX, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x9999999999999999, 0x1b1b1b1b1b1b1b1b, 2, 1 << 62];
        render_case(what, &deep((i / 8) as usize, pats[(i % 8) as usize]), cx)
    }));
    let widest = tier.pick(300u64, 1100);
    out.push(stage("wide-trees", format!("nodes of 0..{widest} children, the first, middle or last of them with children of its own"), widest * 3, move |i, cx| {
        let w = (i / 3) as usize;
        let at = [0, w / 2, w.saturating_sub(1)][(i % 3) as usize];
        let kids = (0..w)
            .map(|k| {
                if k == at {
                    Tr::Node(format!("k{k}"), vec![Tr::Leaf("a".into()), Tr::Node("d".into(), vec![Tr::Leaf("b".into())]), Tr::Leaf("c".into())])
                } else if k % 7 == 3 {
                    Tr::Node(format!("k{k}"), vec![Tr::Leaf(format!("{k}"))])
                } else {
                    Tr::Leaf(format!("w{k} "))
                }
            })
            .collect();
        render_case(what, &Tr::Node("top".into(), kids), cx)
    }));
    {
        let words: Vec<String> = crate::odd::escapes()
            .into_iter()
            .chain(crate::odd::confusable())
            .chain(crate::odd::ODD.iter().map(|s| s.to_string()))
            .filter(|w| what == Render::Mermaid || !w.contains(['\n', '\r']))
            .collect();
        let k = words.len() as u64;
        out.push(stage("odd-labels", format!("{k} odd spellings (escapes, references, placeholders, look-alikes), alone, between letters, doubled, joined to each other, as node and leaf labels"), k, move |i, cx| {
            let w = words[i as usize].as_str();
            let next = words[(i as usize * 7 + 1) % words.len()].as_str();
            for w in [w.to_string(), format!("a{w}b"), format!("{w}{w}"), format!("{w} {w};"), format!("{w}{next}"), format!("#{w}"), format!("&{w};")] {
                let leaf = Tr::Leaf(w.clone());
                render_case(what, &Tr::Node(w.clone(), vec![leaf.clone(), Tr::Node(w.clone(), vec![]), leaf]), cx)?;
            }
            Ok(())
        }));
    }
    if what == Render::Mermaid {
        const P: [&str; 14] = ["#", "&", ";", "0", "3", "4", "9", "x", "quot", "amp", "lt", " ", "\"", "8364"];
        let seq = Seqs { radix: P.len() as u64, lo: 0, hi: tier.pick(4, 5) };
        out.push(stage("entity-strings", format!("every sequence of at most {} of {P:?} as a label", seq.hi), seq.count(), move |i, cx| {
            let w: String = seq.get(i).into_iter().map(|k| P[k]).collect();
            render_case(what, &Tr::Node(w.clone(), vec![Tr::Leaf(w)]), cx)
        }));
    }
    // labels
    let specials: Vec<&'static str> = vec![
        "\"", "'", "&", "#", "<", ">", "[", "]", "\\", ";", "{", "}", "(", ")", "|", "--> ", "é", "😀", " ", "\t", "#34;", "&quot;", "\"]", "a", "0", "%%", "`", "$", "\u{0}", "\u{2028}",
    ];
    let mut specials = specials;
    if what == Render::Mermaid {
        specials.extend(["\n", "\r", "\r\n"]);
    }
    let sp = Arc::new(specials);
    let seq = Seqs { radix: sp.len() as u64, lo: 0, hi: tier.pick(3, 3) };
    {
        let sp = Arc::clone(&sp);
        out.push(stage("labels", "node and leaf labels of 0..3 special pieces", seq.count(), move |i, cx| {
            let l: String = seq.get(i).into_iter().map(|k| sp[k]).collect();
            // the same label on an inner node, a leaf and an empty node
            let tree = Tr::Node(
                l.clone(),
                vec![Tr::Leaf(l.clone()), Tr::Node(format!("{l}2"), vec![Tr::Leaf(l.clone()), Tr::Leaf(format!("{l}3"))]), Tr::Node(format!("4{l}"), vec![])],
            );
            render_case(what, &tree, cx)
        }));
    }
    // trees of ambiguous and recursive grammars (the same symbol many times)
    let u = uni::two_nt(3);
    let nu = u.count();
    out.push(stage("parsed-trees", u.bounds(), nu, move |i, cx| {
        let g = u.get(i);
        let gram = g.to_bnf();
        let parser = gram.build_parser().map_err(|e| format!("{e}"))?;
        let mut printed: HashMap<String, String> = HashMap::new();
        for input in u.inputs.iter() {
            let rec = Rec::new(&g, input);
            let k = if rec.search_finite(g.start()) {
                8
            } else {
                crate::parse::obtainable(&rec, g.start(), 4)
            };
            for p in parser.parse_input(input).take(k) {
                let tree = Tr::of(&p);
                check_render(what, &p, &tree).map_err(|e| format!("{} input {input:?}: {e}", g.show()))?;
                cx.states += 1;
                cx.transitions += tree.size() as u64;
                cx.traces += 1;
                // different trees print differently
                if what == Render::Text {
                    let c = crate::refg::canon(&p);
                    if let Some(o) = printed.insert(p.to_string(), c.clone())
                        && o != c
                    {
                        return Err(format!("{} two trees print the same: {o} and {c}", g.show()));
                    }
                }
            }
        }
        Ok(())
    }));
    if what == Render::Mermaid {
        out.push(stage("every-character", "every Unicode character alone and between letters", 0x110000 / 64, move |i, cx| {
            for c in (i as u32 * 64..(i as u32 + 1) * 64).filter_map(char::from_u32) {
                for s in [c.to_string(), format!("a{c}#{c}é")] {
                    let got = bnf::escape_mermaid_label(&s);
                    cx.states += 1;
                    cx.transitions += 1;
                    if got != escape(&s) || unescape(&got).as_deref() != Some(&s) {
                        return Err(format!("label {s:?} becomes {got:?}, expected {:?}", escape(&s)));
                    }
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        let alpha = ["\"", "&", "#", "<", ">", "[", "]", "\\", ";", "\n", "\r", "3", "4", "é", " "];
        let seq = Seqs { radix: alpha.len() as u64, lo: 0, hi: tier.pick(5, 6) };
        out.push(stage("label-strings", "every string of 0..5 characters out of 15", seq.count(), move |i, cx| {
            let s: String = seq.get(i).into_iter().map(|k| alpha[k]).collect();
            let got = bnf::escape_mermaid_label(&s);
            cx.states += 1;
            cx.transitions += 1;
            cx.traces += 1;
            if got != escape(&s) || unescape(&got).as_deref() != Some(&s) {
                return Err(format!("label {s:?} becomes {got:?}, expected {:?}", escape(&s)));
            }
            Ok(())
        }));
        out.push(stage("long-labels", "labels of 0..2000 characters", 2000, move |i, cx| {
            let s: String = (0..i).map(|k| ['#', 'a', ';', '"', 'é', '3'][(k % 6) as usize]).collect();
            cx.states += 1;
            cx.transitions += 1;
            cx.traces += 1;
            if bnf::escape_mermaid_label(&s) != escape(&s) {
                return Err(format!("label of {i} characters is not escaped as it should be"));
            }
            Ok(())
        }));
    }
    out.push(huge_trees(what, tier));
    out
}

// ---------------------------------------------------------------- C22

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn show_term(x: &Term) -> String {
    match x {
        Term::Nonterminal(s) => format!("<{s}>"),
        Term::Terminal(s) if s.contains('\'') => format!("\"{s}\""),
        Term::Terminal(s) => format!("'{s}'"),
    }
}
fn show_expr(e: &[Term]) -> String {
    e.iter().map(show_term).collect::<Vec<_>>().join(" ")
}
fn show_prod(l: &Term, alts: &[Vec<Term>]) -> String {
    format!("{} ::= {}", show_term(l), alts.iter().map(|a| show_expr(a)).collect::<Vec<_>>().join(" | "))
}

fn check_expr(e: &Expression, m: &[Term]) -> Res {
    let got: Vec<Term> = e.terms_iter().cloned().collect();
    if got != m {
        return Err(format!("terms are [{}], expected [{}]", show_expr(&got), show_expr(m)));
    }
    let fresh = Expression::from_parts(m.to_vec());
    if *e != fresh || hash_of(e) != hash_of(&fresh) || e.cmp(&fresh) != std::cmp::Ordering::Equal {
        return Err(format!("not equal to an expression built of the same terms [{}]", show_expr(m)));
    }
    if e.to_string() != show_expr(m) {
        return Err(format!("prints {:?}, expected {:?}", e.to_string(), show_expr(m)));
    }
    // and different from others
    let mut other = m.to_vec();
    other.push(t("z"));
    if *e == Expression::from_parts(other) {
        return Err("equal to a longer expression".into());
    }
    if m.len() >= 2 && m[0] != m[1] {
        let mut sw = m.to_vec();
        sw.swap(0, 1);
        if *e == Expression::from_parts(sw) {
            return Err("equal to an expression with terms in another order".into());
        }
    }
    Ok(())
}

const EXPR_OPS: u64 = 3 + 3 + 4 + 7;

fn expr_terms() -> [Term; 3] {
    [n("a"), t("a"), t("b'")]
}

fn expr_op(op: u64, e: &mut Expression, m: &mut Vec<Term>) -> Result<&'static str, String> {
    let ts = expr_terms();
    Ok(match op {
        0..=2 => {
            e.add_term(ts[op as usize].clone());
            m.push(ts[op as usize].clone());
            "add_term"
        }
        3..=5 => {
            let x = &ts[op as usize - 3];
            let got = e.remove_term(x);
            let want = m.iter().position(|y| y == x).map(|p| m.remove(p));
            if got != want {
                return Err(format!("remove_term({}) returned {got:?}, expected {want:?}", show_term(x)));
            }
            "remove_term"
        }
        6 => {
            if let Some(x) = e.terms_iter_mut().next() {
                *x = t("c");
                m[0] = t("c");
            }
            "first term replaced"
        }
        7 => {
            for x in e.terms_iter_mut() {
                if let Term::Terminal(s) = x {
                    s.push('!');
                }
            }
            for x in m.iter_mut() {
                if let Term::Terminal(s) = x {
                    s.push('!');
                }
            }
            "all terminals changed"
        }
        8 => {
            if e.terms_iter_mut().count() != m.len() {
                return Err("terms_iter_mut does not visit every term".into());
            }
            if let Some(x) = e.terms_iter_mut().last() {
                *x = n("z");
                let k = m.len() - 1;
                m[k] = n("z");
            }
            "last term replaced"
        }
        9 => {
            let mut v: Vec<&mut Term> = e.terms_iter_mut().collect();
            if v.len() >= 2 {
                let (a, b) = v.split_at_mut(1);
                std::mem::swap(a[0], b[0]);
                m.swap(0, 1);
            }
            "two terms swapped"
        }
        10 => {
            let r = Expression::from_parts(vec![t("x"), n("y")]);
            *e = std::mem::take(e) + r;
            m.extend([t("x"), n("y")]);
            "+ expression"
        }
        11 => {
            let keep = e.clone();
            let r = Expression::from_parts(vec![t("x"), n("y")]);
            *e = &keep + r;
            check_expr(&keep, m).map_err(|x| format!("the operand of + changed: {x}"))?;
            m.extend([t("x"), n("y")]);
            "&expression + expression"
        }
        12 => {
            *e = std::mem::take(e) + t("q");
            m.push(t("q"));
            "+ term"
        }
        13 => {
            let keep = e.clone();
            *e = &keep + n("q");
            m.push(n("q"));
            "&expression + term"
        }
        14 => {
            // a term added to an expression goes to its end
            *e = t("w") + std::mem::take(e);
            m.push(t("w"));
            "term + expression"
        }
        15 => {
            let keep = e.clone();
            *e = n("w") + &keep;
            check_expr(&keep, m).map_err(|x| format!("the operand of + changed: {x}"))?;
            m.push(n("w"));
            "term + &expression"
        }
        _ => {
            let two = n("f") + t("g");
            check_expr(&two, &[n("f"), t("g")])?;
            *e = two + std::mem::take(e);
            let mut v = vec![n("f"), t("g")];
            v.append(m);
            *m = v;
            "term + term + expression"
        }
    })
}

fn check_prod(p: &Production, l: &Term, m: &[Vec<Term>]) -> Res {
    let got: Vec<Vec<Term>> = p.rhs_iter().map(|e| e.terms_iter().cloned().collect()).collect();
    if got != m || p.lhs != *l {
        return Err(format!("is [{}], expected [{}]", show_prod(&p.lhs, &got), show_prod(l, m)));
    }
    if p.len() != m.len() || p.is_empty() != m.is_empty() {
        return Err(format!("length {} empty {}, expected {}", p.len(), p.is_empty(), m.len()));
    }
    let fresh = Production::from_parts(l.clone(), m.iter().map(|a| Expression::from_parts(a.clone())).collect());
    if *p != fresh || hash_of(p) != hash_of(&fresh) {
        return Err(format!("not equal to a production built of the same parts {fresh}"));
    }
    if p.to_string() != show_prod(l, m) {
        return Err(format!("prints {:?}, expected {:?}", p.to_string(), show_prod(l, m)));
    }
    if m.len() >= 2 && m[0] != m[1] {
        let mut sw = m.to_vec();
        sw.swap(0, 1);
        if *p == Production::from_parts(l.clone(), sw.into_iter().map(Expression::from_parts).collect()) {
            return Err("equal to a production with alternatives in another order".into());
        }
    }
    Ok(())
}

const PROD_OPS: u64 = 4 + 4 + 5;

fn prod_exprs() -> [Vec<Term>; 4] {
    [vec![t("a")], vec![n("s"), t("a")], vec![], vec![t("a"), n("s")]]
}

fn prod_op(op: u64, p: &mut Production, m: &mut (Term, Vec<Vec<Term>>)) -> Result<&'static str, String> {
    let es = prod_exprs();
    Ok(match op {
        0..=3 => {
            p.add_to_rhs(Expression::from_parts(es[op as usize].clone()));
            m.1.push(es[op as usize].clone());
            "add_to_rhs"
        }
        4..=7 => {
            let x = &es[op as usize - 4];
            let got = p.remove_from_rhs(&Expression::from_parts(x.clone())).map(|e| e.terms_iter().cloned().collect::<Vec<_>>());
            let want = m.1.iter().position(|y| y == x).map(|k| m.1.remove(k));
            if got != want {
                return Err(format!("remove_from_rhs([{}]) returned {got:?}, expected {want:?}", show_expr(x)));
            }
            "remove_from_rhs"
        }
        8 => {
            if let Some(e) = p.rhs_iter_mut().next() {
                e.add_term(t("b"));
                m.1[0].push(t("b"));
            }
            "first alternative extended"
        }
        9 => {
            if p.rhs_iter_mut().count() != m.1.len() {
                return Err("rhs_iter_mut does not visit every alternative".into());
            }
            if let Some(e) = p.rhs_iter_mut().last() {
                *e = Expression::from_parts(vec![n("s"), t("a")]);
                let k = m.1.len() - 1;
                m.1[k] = vec![n("s"), t("a")];
            }
            "last alternative replaced"
        }
        10 => {
            for e in p.rhs_iter_mut() {
                let _ = e.remove_term(&t("a"));
            }
            for e in m.1.iter_mut() {
                if let Some(k) = e.iter().position(|x| *x == t("a")) {
                    e.remove(k);
                }
            }
            "'a' removed from every alternative"
        }
        11 => {
            p.lhs = n("other");
            m.0 = n("other");
            "left-hand side changed"
        }
        _ => {
            let mut v: Vec<&mut Expression> = p.rhs_iter_mut().collect();
            if v.len() >= 2 {
                let k = v.len();
                let (a, b) = v.split_at_mut(k - 1);
                std::mem::swap(a[0], b[0]);
                m.1.swap(0, k - 1);
            }
            "first and last alternative swapped"
        }
    })
}

fn plain_to_rg(m: &Plain) -> Option<Rg> {
    Rg::from_bnf(&build(m)).ok()
}

/// Everything observable of a grammar reflects exactly its current content.
fn check_grammar(g: &Grammar, m: &Plain, deep: bool, cx: &mut Cx) -> Res {
    let got: Plain =
        g.productions_iter().map(|p| (p.lhs.clone(), p.rhs_iter().map(|e| e.terms_iter().cloned().collect()).collect())).collect();
    let show = |m: &Plain| m.iter().map(|(l, a)| show_prod(l, a)).collect::<Vec<_>>().join("\n");
    if got != *m {
        return Err(format!("productions are\n{}\nexpected\n{}", show(&got), show(m)));
    }
    for (p, (l, a)) in g.productions_iter().zip(m) {
        check_prod(p, l, a)?;
    }
    let fresh = build(m);
    if *g != fresh || hash_of(g) != hash_of(&fresh) || g.clone() != *g {
        return Err("not equal to a grammar built of the same parts".into());
    }
    if g.to_string() != show(m) + "\n" {
        return Err(format!("prints {:?}, expected {:?}", g.to_string(), show(m) + "\n"));
    }
    let bad = undefined(m);
    if g.validate().is_ok() != bad.is_none() {
        return Err(format!("validate says {:?}, undefined are {bad:?}", g.validate()));
    }
    if !deep || m.is_empty() {
        return Ok(());
    }
    let Some(rg) = plain_to_rg(m) else { return Ok(()) };
    // parsing
    if bad.is_none() {
        let parser = g.build_parser().map_err(|e| format!("build_parser: {e}"))?;
        for input in ["", "a", "b", "ab", "aa"] {
            let rec = Rec::new(&rg, input);
            if !rec.search_finite(rg.start()) {
                continue;
            }
            cx.transitions += 1;
            if parser.parse_input(input).next().is_some() != rec.accepts(rg.start()) {
                return Err(format!("parsing {input:?} gives {:?}, the content derives it: {}", parser.parse_input(input).next().map(|t| t.to_string()), rec.accepts(rg.start())));
            }
        }
    }
    // generation
    let can = crate::r#gen::generable(&rg).contains(&rg.start());
    crate::choice::every(3, 40, |script| {
        let mut any = crate::choice::Any::new(script, false);
        let r = g.generate_seeded_with_strategy(&mut any);
        cx.transitions += 1;
        if script.aborted() {
            return Ok(());
        }
        match r {
            Ok(s) if bad.is_none() && !Rec::new(&rg, &s).accepts(rg.start()) => Err(format!("generated {s:?}, which the content does not derive")),
            Ok(s) if !can && bad.is_none() => Err(format!("generated {s:?} although the first symbol cannot terminate")),
            Err(e) if can && bad.is_none() && rg.reachable(rg.start()).is_subset(&crate::r#gen::generable(&rg)) => Err(format!("generation failed: {e}")),
            _ => Ok(()),
        }
    })?;
    Ok(())
}

const GRAM_OPS: u64 = 5 + 5 + 4;

fn gram_prods() -> [(Term, Vec<Vec<Term>>); 5] {
    [
        (n("s"), vec![vec![t("a")]]),
        (n("s"), vec![vec![n("x"), t("b")], vec![t("a")]]),
        (n("x"), vec![vec![t("a")], vec![t("")]]),
        (n("x"), vec![vec![n("s")]]),
        (n("y"), vec![]),
    ]
}

fn to_prod(x: &(Term, Vec<Vec<Term>>)) -> Production {
    Production::from_parts(x.0.clone(), x.1.iter().map(|a| Expression::from_parts(a.clone())).collect())
}

fn gram_op(op: u64, g: &mut Grammar, m: &mut Plain) -> Result<&'static str, String> {
    let ps = gram_prods();
    Ok(match op {
        0..=4 => {
            g.add_production(to_prod(&ps[op as usize]));
            m.push(ps[op as usize].clone());
            "add_production"
        }
        5..=9 => {
            let x = &ps[op as usize - 5];
            let got = g.remove_production(&to_prod(x));
            let want = m.iter().position(|y| y == x).map(|k| m.remove(k)).map(|x| to_prod(&x));
            if got != want {
                return Err(format!("remove_production returned {got:?}, expected {want:?}"));
            }
            "remove_production"
        }
        10 => {
            if let Some(p) = g.productions_iter_mut().next() {
                p.add_to_rhs(Expression::from_parts(vec![t("b")]));
                m[0].1.push(vec![t("b")]);
            }
            "first production extended"
        }
        11 => {
            if g.productions_iter_mut().count() != m.len() {
                return Err("productions_iter_mut does not visit every production".into());
            }
            if let Some(p) = g.productions_iter_mut().last() {
                p.lhs = n("s");
                let k = m.len() - 1;
                m[k].0 = n("s");
            }
            "last production's left-hand side changed"
        }
        12 => {
            for p in g.productions_iter_mut() {
                for e in p.rhs_iter_mut() {
                    for x in e.terms_iter_mut() {
                        if *x == t("a") {
                            *x = t("b");
                        }
                    }
                }
            }
            for x in m.iter_mut().flat_map(|p| p.1.iter_mut()).flatten() {
                if *x == t("a") {
                    *x = t("b");
                }
            }
            "every 'a' changed to 'b'"
        }
        _ => {
            let mut v: Vec<&mut Production> = g.productions_iter_mut().collect();
            if v.len() >= 2 {
                let (a, b) = v.split_at_mut(1);
                std::mem::swap(a[0], b[0]);
                m.swap(0, 1);
            }
            "first two productions swapped"
        }
    })
}

pub fn c22(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let seq = Seqs { radix: EXPR_OPS, lo: 0, hi: tier.pick(4, 5) };
    out.push(stage("expression-histories", format!("all sequences of 0..{} of {EXPR_OPS} operations on an expression", seq.hi), seq.count(), move |i, cx| {
        let mut m: Vec<Term> = vec![];
        let mut e = Expression::new();
        let mut names = vec![];
        for op in seq.get(i) {
            let keep = (e.clone(), m.clone());
            names.push(expr_op(op as u64, &mut e, &mut m).map_err(|x| format!("{names:?}: {x}"))?);
            check_expr(&keep.0, &keep.1).map_err(|x| format!("{names:?}: a clone changed: {x}"))?;
            cx.transitions += 1;
        }
        cx.states += 1;
        cx.traces += 1;
        cx.sample(|| format!("{names:?} -> [{e}]"));
        check_expr(&e, &m).map_err(|x| format!("after {names:?}: {x}"))
    }));
    let seq = Seqs { radix: PROD_OPS, lo: 0, hi: tier.pick(5, 6) };
    out.push(stage("production-histories", format!("all sequences of 0..{} of {PROD_OPS} operations on a production", seq.hi), seq.count(), move |i, cx| {
        let mut m = (n("s"), vec![]);
        let mut p = Production::from_parts(n("s"), vec![]);
        let mut names = vec![];
        for op in seq.get(i) {
            names.push(prod_op(op as u64, &mut p, &mut m).map_err(|x| format!("{names:?}: {x}"))?);
            cx.transitions += 1;
        }
        cx.states += 1;
        cx.traces += 1;
        check_prod(&p, &m.0, &m.1).map_err(|x| format!("after {names:?}: {x}"))
    }));
    let seq = Seqs { radix: GRAM_OPS, lo: 0, hi: tier.pick(5, 6) };
    let deep_len = tier.pick(4, 5);
    out.push(stage("grammar-histories", format!("all sequences of 0..{} of {GRAM_OPS} operations on a grammar; parsing and generation too up to {deep_len}", seq.hi), seq.count(), move |i, cx| {
        let mut m: Plain = vec![];
        let mut g = Grammar::new();
        let mut names = vec![];
        let ops = seq.get(i);
        let last = ops.len().saturating_sub(1);
        let deep = ops.len() <= deep_len;
        for (k, op) in ops.into_iter().enumerate() {
            // use the grammar in between: no stale state may survive the next edit
            if deep && k == last && undefined(&m).is_none() {
                let _ = g.build_parser().map(|p| p.parse_input("a").next().is_some());
            }
            names.push(gram_op(op as u64, &mut g, &mut m).map_err(|x| format!("{names:?}: {x}"))?);
            cx.transitions += 1;
        }
        cx.states += 1;
        cx.traces += 1;
        cx.sample(|| format!("{names:?} -> {g}"));
        check_grammar(&g, &m, deep, cx).map_err(|x| format!("after {names:?}: {x}"))
    }));
    // long lists: remove at every place, duplicates everywhere
    let max = tier.pick(70u64, 200);
    out.push(stage("long-lists", format!("lists of 1..{max} items, removing each item, with and without duplicates"), max, move |i, cx| {
        let k = i as usize + 1;
        for modulus in [k, k.div_ceil(2), 3] {
            let item = |j: usize| format!("i{}", j % modulus);
            let terms: Vec<Term> = (0..k).map(|j| if j % 2 == 0 { t(&item(j)) } else { n(&item(j)) }).collect();
            let prods: Plain = (0..k).map(|j| (n(&item(j)), vec![vec![t(&item(j))]])).collect();
            for at in 0..k {
                cx.states += 3;
                cx.transitions += 3;
                cx.traces += 3;
                let ctx = |e: String| format!("{k} items, {modulus} distinct, removing number {at}: {e}");
                // expression
                let mut e = Expression::from_parts(terms.clone());
                let mut m = terms.clone();
                let got = e.remove_term(&terms[at]);
                m.remove(m.iter().position(|x| *x == terms[at]).unwrap());
                if got.as_ref() != Some(&terms[at]) {
                    return Err(ctx(format!("returned {got:?}")));
                }
                check_expr(&e, &m).map_err(ctx)?;
                // production
                let alts: Vec<Vec<Term>> = terms.iter().map(|x| vec![x.clone()]).collect();
                let mut p = Production::from_parts(n("s"), alts.iter().cloned().map(Expression::from_parts).collect());
                let mut m = alts.clone();
                let got = p.remove_from_rhs(&Expression::from_parts(alts[at].clone()));
                m.remove(m.iter().position(|x| *x == alts[at]).unwrap());
                if got.is_none() {
                    return Err(ctx("returned nothing".into()));
                }
                check_prod(&p, &n("s"), &m).map_err(ctx)?;
                // grammar
                let mut g = build(&prods);
                let mut m = prods.clone();
                let got = g.remove_production(&to_prod(&prods[at]));
                m.remove(m.iter().position(|x| *x == prods[at]).unwrap());
                if got != Some(to_prod(&prods[at])) {
                    return Err(ctx(format!("returned {got:?}")));
                }
                check_grammar(&g, &m, false, cx).map_err(ctx)?;
                // adding it again goes to the end
                g.add_production(to_prod(&prods[at]));
                m.push(prods[at].clone());
                check_grammar(&g, &m, false, cx).map_err(ctx)?;
            }
        }
        Ok(())
    }));
    // concatenation and equality over terms that are easily dropped or merged
    {
        let alpha = [t(""), n(""), t("x"), n("x"), t(" ")];
        let seq = Seqs { radix: alpha.len() as u64, lo: 0, hi: tier.pick(3, 4) };
        let k = seq.count();
        out.push(stage("all-concatenations", format!("all pairs of expressions of 0..{} of 5 terms (empty ones, duplicates, same spelling), every owned/borrowed form of +; equality of all pairs", seq.hi), k * k, move |i, cx| {
            let l: Vec<Term> = seq.get(i % k).into_iter().map(|j| alpha[j].clone()).collect();
            let r: Vec<Term> = seq.get(i / k).into_iter().map(|j| alpha[j].clone()).collect();
            let both = [l.clone(), r.clone()].concat();
            let (el, er) = (Expression::from_parts(l.clone()), Expression::from_parts(r.clone()));
            let ctx = |e: String| format!("[{}] and [{}]: {e}", show_expr(&l), show_expr(&r));
            cx.states += 1;
            cx.transitions += 8;
            cx.traces += 1;
            check_expr(&(el.clone() + er.clone()), &both).map_err(ctx)?;
            check_expr(&(&el + er.clone()), &both).map_err(ctx)?;
            check_expr(&el, &l).map_err(ctx)?;
            if (el == er) != (l == r) || (el.cmp(&er) == std::cmp::Ordering::Equal) != (l == r) {
                return Err(ctx(format!("== says {}, cmp says {:?}", el == er, el.cmp(&er))));
            }
            let (gl, gr) = (vec![(n("s"), vec![l.clone(), r.clone()])], vec![(n("s"), vec![r.clone(), l.clone()])]);
            if (build(&gl) == build(&gr)) != (l == r) || (to_prod(&gl[0]) == to_prod(&gr[0])) != (l == r) {
                return Err(ctx("productions or grammars with the alternatives exchanged compare wrongly".into()));
            }
            if r.len() == 1 {
                let x = r[0].clone();
                check_expr(&(el.clone() + x.clone()), &both).map_err(ctx)?;
                check_expr(&(&el + x.clone()), &both).map_err(ctx)?;
                check_expr(&(x.clone() + el.clone()), &both).map_err(ctx)?;
                check_expr(&(x.clone() + &el), &both).map_err(ctx)?;
                // removing: the first equal term, nothing else
                let mut e = el.clone();
                let mut m = l.clone();
                let got = e.remove_term(&x);
                let want = m.iter().position(|y| *y == x).map(|p| m.remove(p));
                if got != want {
                    return Err(ctx(format!("remove_term returned {got:?}")));
                }
                check_expr(&e, &m).map_err(ctx)?;
                if l.len() == 1 {
                    check_expr(&(l[0].clone() + x), &both).map_err(ctx)?;
                }
            }
            // the same lists as alternatives of a production and as productions
            let mut p = Production::from_parts(n("s"), vec![el.clone(), er.clone(), el.clone()]);
            let got = p.remove_from_rhs(&er);
            let want: Vec<Vec<Term>> = if l == r { vec![l.clone(), l.clone()] } else { vec![l.clone(), l.clone()] };
            if got.as_ref() != Some(&er) {
                return Err(ctx(format!("remove_from_rhs returned {got:?}")));
            }
            check_prod(&p, &n("s"), &want).map_err(ctx)?;
            p.add_to_rhs(er.clone());
            check_prod(&p, &n("s"), &[l.clone(), l.clone(), r.clone()]).map_err(ctx)
        }));
    }
    {
        let words = Arc::new(crate::odd::confusable());
        let k = words.len() as u64;
        out.push(stage("confusable-items", format!("all pairs of {k} easily confused spellings: equality, and removing the one leaves the other"), k * k * 4, move |mut i, cx| {
            let kind = digit(&mut i, 4);
            let (a, b) = (words[digit(&mut i, k) as usize].as_str(), words[digit(&mut i, k) as usize].as_str());
            let x = if kind & 1 == 0 { t(a) } else { n(a) };
            let y = if kind & 2 == 0 { t(b) } else { n(b) };
            let same = a == b && (kind == 0 || kind == 3);
            cx.states += 1;
            cx.transitions += 3;
            cx.traces += 1;
            if (x == y) != same || (same && hash_of(&x) != hash_of(&y)) || (x.cmp(&y) == std::cmp::Ordering::Equal) != same {
                return Err(format!("{x:?} and {y:?}: equal {}", x == y));
            }
            let mut e = Expression::from_parts(vec![x.clone(), y.clone()]);
            if e.remove_term(&y).as_ref() != Some(&y) {
                return Err(format!("removing {y:?} from [{x:?}, {y:?}] returned something else"));
            }
            check_expr(&e, std::slice::from_ref(&x))?;
            let (ex, ey) = (Expression::from_parts(vec![x.clone()]), Expression::from_parts(vec![y.clone()]));
            let mut p = Production::from_parts(x.clone(), vec![ex.clone(), ey.clone()]);
            if p.remove_from_rhs(&ey).as_ref() != Some(&ey) {
                return Err(format!("removing [{y:?}] from a production returned something else"));
            }
            check_prod(&p, &x, &[vec![x.clone()]])?;
            let (px, py) = (Production::from_parts(x.clone(), vec![ex.clone()]), Production::from_parts(y.clone(), vec![ex.clone()]));
            let mut g = Grammar::from_parts(vec![px.clone(), py.clone()]);
            if g.remove_production(&py).as_ref() != Some(&py) || g != Grammar::from_parts(vec![px]) {
                return Err(format!("removing {py} left {g}"));
            }
            Ok(())
        }));
    }
    // concatenation of long expressions
    let side = tier.pick(24u64, 60);
    out.push(stage("concatenation", format!("all pairs of expressions of 0..{side} terms, in every owned/borrowed form"), side * side, move |i, cx| {
        let (a, b) = ((i % side) as usize, (i / side) as usize);
        let l: Vec<Term> = (0..a).map(|j| t(&format!("l{j}"))).collect();
        let r: Vec<Term> = (0..b).map(|j| n(&format!("r{j}"))).collect();
        let both = [l.clone(), r.clone()].concat();
        let (el, er) = (Expression::from_parts(l.clone()), Expression::from_parts(r.clone()));
        check_expr(&(el.clone() + er.clone()), &both)?;
        check_expr(&(&el + er.clone()), &both)?;
        let plus = [l.clone(), vec![t("x")]].concat();
        check_expr(&(el.clone() + t("x")), &plus)?;
        check_expr(&(&el + t("x")), &plus)?;
        check_expr(&(t("x") + el.clone()), &plus)?;
        check_expr(&(t("x") + &el), &plus)?;
        check_expr(&el, &l)?;
        cx.states += 1;
        cx.transitions += 6;
        cx.traces += 1;
        Ok(())
    }));
    out.push(huge_lists(tier));
    out
}

// ---------------------------------------------------------------- sizes far beyond ordinary use

/// Names that differ in one place only: defined one, used the other.
fn near_names(tier: Tier) -> Stage {
    let mut lens: Vec<usize> = sizes(tier.pick(70, 140), tier.pick(300, 1100));
    lens.extend(huge(tier));
    lens.sort_unstable_by_key(|n| std::cmp::Reverse(*n));
    stage("near-names", format!("names of {} lengths up to {}, against every single edit (long ones: edits at 40 places)", lens.len(), lens.iter().max().unwrap()), lens.len() as u64, move |i, cx| {
        let len = lens[i as usize];
        let base: Vec<char> = "abcdefghijklmnopqrstuvwxyz-0123456789 ABCDEFG é".chars().cycle().take(len).collect();
        let name: String = base.iter().collect();
        let places: Vec<usize> = if len <= 300 {
            (0..len).collect()
        } else {
            let mut v: Vec<usize> = (0..8).chain(len - 8..len).chain((0..16).map(|k| len * k / 16)).collect();
            for c in [15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536] {
                v.push(c);
            }
            v.retain(|p| *p < len);
            v
        };
        validate_case(&vec![(n(&name), vec![vec![n(&name), t("x")]])], cx).map_err(short)?;
        for at in places {
            let mut edits: Vec<Vec<char>> = vec![];
            for c in ['#', ' ', 'Z'] {
                let mut e = base.clone();
                e[at] = c;
                edits.push(e);
            }
            let mut e = base.clone();
            e.remove(at);
            edits.push(e.clone());
            let mut e = base.clone();
            e.insert(at, '~');
            edits.push(e);
            let mut e = base.clone();
            e[at] = if e[at].is_lowercase() { e[at].to_ascii_uppercase() } else { e[at].to_ascii_lowercase() };
            edits.push(e);
            for e in edits {
                let other: String = e.into_iter().collect();
                // the other name used, nowhere defined
                validate_case(&vec![(n(&name), vec![vec![n(&other), n(&name)]])], cx).map_err(short)?;
                if len <= 70 {
                    validate_case(&vec![(n(&name), vec![vec![t(&other)], vec![n(&name)]]), (n(&other), vec![vec![n(&name)]])], cx).map_err(short)?;
                    validate_case(&vec![(n(&other), vec![vec![n(&other)]]), (t(&name), vec![vec![n(&name)]])], cx).map_err(short)?;
                }
            }
        }
        Ok(())
    })
    .soft()
}

fn short(e: String) -> String {
    e.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect()
}

fn confusable_pairs() -> Stage {
    let words = crate::odd::confusable();
    let k = words.len() as u64;
    stage("confusable-pairs", format!("all pairs of {k} easily confused names: one defined, the other used"), k * k, move |mut i, cx| {
        let a = &words[digit(&mut i, k) as usize];
        let b = &words[digit(&mut i, k) as usize];
        validate_case(&vec![(n(a), vec![vec![n(b)]])], cx)?;
        validate_case(&vec![(n("s"), vec![vec![n(a), t(b)], vec![n(b)]]), (n(b), vec![])], cx)?;
        validate_case(&vec![(n(a), vec![vec![t("x")]]), (t(b), vec![vec![t("y"), n(b)]])], cx)
    })
}

fn huge_grammars(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-grammars", format!("{} sizes up to {}: productions, alternatives or terms, one undefined use first, in the middle or last, or none; one definition missing", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 4, move |mut i, cx| {
        let kind = digit(&mut i, 4);
        let k = ns[i as usize];
        let base: Plain = match kind {
            0 => (0..k).map(|j| (n(&format!("s{j}")), vec![vec![n(&format!("s{}", (j + 1) % k)), t("t")]])).collect(),
            1 => vec![(n("s0"), (0..k).map(|_| vec![n("s0")]).collect())],
            2 => vec![(n("s0"), vec![(0..k).map(|_| n("s0")).collect()])],
            _ => (0..k).map(|j| (n("s0"), vec![vec![t("t")], vec![n("s0"), t(&format!("s{j}"))]])).collect(),
        };
        validate_case(&base, cx).map_err(short)?;
        for at in [0, 1, k / 2, k - 2, k - 1] {
            let mut p = base.clone();
            match kind {
                0 => p[at].1[0][0] = n("missing"),
                1 => p[0].1[at][0] = n("missing"),
                2 => p[0].1[0][at] = n("missing"),
                _ => p[at].1[1][0] = n("missing"),
            }
            validate_case(&p, cx).map_err(short)?;
            if kind == 0 {
                let mut p = base.clone();
                p.remove(at);
                validate_case(&p, cx).map_err(short)?;
                let mut p = base.clone();
                p[at].0 = t(&format!("s{at}"));
                validate_case(&p, cx).map_err(short)?;
            }
        }
        Ok(())
    })
    .soft()
}

/// Trees of tens of thousands of nodes: built from a parsed tree by replacing children.
fn huge_trees(what: Render, tier: Tier) -> Stage {
    let ns = huge(tier);
    let wide = tier.pick(16_385, 32_769);
    stage("huge-trees", format!("{} sizes up to {}: nodes of up to {wide} children, many nodes, long labels", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 4, move |mut i, cx| {
        let kind = digit(&mut i, 4);
        let k = ns[i as usize];
        // (parsing a rule of k terms takes time in the square of k)
        if kind == 0 && k > wide {
            return Ok(());
        }
        let nt = |s: &str| Term::Nonterminal(s.to_string());
        let te = |s: String| Term::Terminal(s);
        let say = |e: String| format!("[kind {kind}, size {k}] {}", e.chars().take(200).collect::<String>());
        let one = |l: Term, e: Vec<Term>| Production::from_parts(l, vec![Expression::from_parts(e)]);
        let (g, input): (Grammar, String) = match kind {
            // one wide node
            0 => (Grammar::from_parts(vec![one(nt("s"), (0..k).map(|j| te((j % 10).to_string())).collect())]), (0..k).map(|j| (j % 10).to_string()).collect()),
            // long labels
            1 => {
                let l: String = "a<b>&#;\"[x]\\ é".chars().cycle().take(k).collect();
                (Grammar::from_parts(vec![one(nt(&l), vec![te(l.clone()), nt("k")]), one(nt("k"), vec![te("y".into()), te(l.clone())])]), format!("{l}y{l}"))
            }
            // about k nodes, three levels
            _ => {
                let w = (k as f64).sqrt() as usize;
                (Grammar::from_parts(vec![one(nt("s"), (0..w).map(|_| te("x".into())).collect())]), "x".repeat(w))
            }
        };
        let parser = g.build_parser().map_err(|e| format!("{e}"))?;
        let Some(mut p) = parser.parse_input(&input).next() else { return Err(say("no parse".into())) };
        let other: ParseTree;
        match kind {
            2 => {
                other = p.clone();
                for c in p.rhs_iter_mut() {
                    *c = ParseTreeNode::Nonterminal(other.clone());
                }
            }
            3 => {
                // the large subtrees first, then small ones, then a leaf
                other = p.clone();
                let w = p.rhs_iter().count();
                for (j, c) in p.rhs_iter_mut().enumerate() {
                    if j % 3 != 1 || j + 1 == w {
                        let mut q = other.clone();
                        for (m, d) in q.rhs_iter_mut().enumerate() {
                            if m == j % w {
                                *d = ParseTreeNode::Nonterminal(other.clone());
                            }
                        }
                        *c = ParseTreeNode::Nonterminal(q);
                    }
                }
            }
            _ => {}
        }
        let own = Tr::of(&p);
        cx.states += 1;
        cx.traces += 1;
        cx.transitions += own.size() as u64;
        check_render(what, &p, &own).map_err(say)?;
        let again = p.clone();
        if again != p || Tr::of(&again).size() != own.size() {
            return Err(say("a clone differs".into()));
        }
        check_render(what, &again, &own).map_err(say)
    })
    .soft()
}

/// Lists of tens of thousands of items.
fn huge_lists(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-lists", format!("{} sizes up to {}: adding, removing at five places, concatenating", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 3, move |mut i, cx| {
        let kind = digit(&mut i, 3);
        let k = ns[i as usize];
        cx.states += 1;
        cx.traces += 1;
        let say = |m: &str, at: usize| format!("{k} items, kind {kind}, at {at}: {m}");
        let places = [0, 1, k / 2, k - 2, k - 1];
        match kind {
            0 => {
                let model: Vec<Term> = (0..k).map(|j| t(&format!("{j}"))).collect();
                let mut e = Expression::new();
                for x in &model {
                    e.add_term(x.clone());
                }
                if e != Expression::from_parts(model.clone()) || !e.terms_iter().eq(model.iter()) {
                    return Err(say("added terms differ", 0));
                }
                for at in places {
                    let mut e2 = e.clone();
                    let mut m2 = model.clone();
                    m2.remove(at);
                    if e2.remove_term(&model[at]) != Some(model[at].clone()) || !e2.terms_iter().eq(m2.iter()) {
                        return Err(say("removing a term", at));
                    }
                    if e2.remove_term(&model[at]).is_some() || !e2.terms_iter().eq(m2.iter()) {
                        return Err(say("removing an absent term", at));
                    }
                    cx.transitions += 2;
                }
                let twice: Vec<Term> = model.iter().chain(model.iter()).cloned().collect();
                if !(e.clone() + e.clone()).terms_iter().eq(twice.iter()) {
                    return Err(say("concatenation", 0));
                }
                let plus = e + t("last");
                if plus.terms_iter().count() != k + 1 || plus.terms_iter().last() != Some(&t("last")) {
                    return Err(say("adding a term", k));
                }
            }
            1 => {
                let model: Vec<Expression> = (0..k).map(|j| Expression::from_parts(vec![t(&format!("{j}"))])).collect();
                let mut p = Production::new();
                p.lhs = n("s");
                for x in &model {
                    p.add_to_rhs(x.clone());
                }
                if p != Production::from_parts(n("s"), model.clone()) || p.len() != k || p.is_empty() {
                    return Err(say("added alternatives differ", 0));
                }
                for at in places {
                    let mut p2 = p.clone();
                    if p2.remove_from_rhs(&model[at]) != Some(model[at].clone()) || p2.len() != k - 1 {
                        return Err(say("removing an alternative", at));
                    }
                    if !p2.rhs_iter().eq(model[..at].iter().chain(&model[at + 1..])) || p2.remove_from_rhs(&model[at]).is_some() {
                        return Err(say("alternatives left over", at));
                    }
                    cx.transitions += 2;
                }
            }
            _ => {
                let model: Vec<Production> = (0..k).map(|j| Production::from_parts(n(&format!("{j}")), vec![Expression::from_parts(vec![t("x")])])).collect();
                let mut g = Grammar::new();
                for x in &model {
                    g.add_production(x.clone());
                }
                if g != Grammar::from_parts(model.clone()) || !g.productions_iter().eq(model.iter()) {
                    return Err(say("added productions differ", 0));
                }
                for at in places {
                    let mut g2 = g.clone();
                    if g2.remove_production(&model[at]) != Some(model[at].clone()) {
                        return Err(say("removing a production", at));
                    }
                    if !g2.productions_iter().eq(model[..at].iter().chain(&model[at + 1..])) || g2.remove_production(&model[at]).is_some() {
                        return Err(say("productions left over", at));
                    }
                    g2.add_production(model[at].clone());
                    if g2.productions_iter().last() != Some(&model[at]) || g2.productions_iter().count() != k || g2 == g && at + 1 != k {
                        return Err(say("adding a production again", at));
                    }
                    cx.transitions += 3;
                }
            }
        }
        Ok(())
    })
    .soft()
}
