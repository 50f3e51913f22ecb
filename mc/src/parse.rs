//! C01-C06: parsing, checked against the reference model on every grammar and input of the
//! bounded universes.
use crate::refg::*;
use crate::run::*;
use crate::uni::{self, Uni};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

fn universes(tier: Tier) -> Vec<Uni> {
    match tier {
        Tier::Quick => vec![
            uni::two_nt(4),
            uni::two_nt_split(4),
            uni::one_nt_overlap(4),
            uni::one_nt_long(4, 4),
            uni::multibyte((1, 1), 3),
            uni::three_nt(1, 3),
            uni::nullable_runs(1, 3),
            uni::four_nt(3),
        ],
        Tier::Thorough => vec![
            uni::two_nt(5),
            uni::two_nt_split(6),
            uni::one_nt_overlap(6),
            uni::one_nt_long(5, 6),
            uni::multibyte((1, 2), 4),
            uni::three_nt(2, 4),
            uni::nullable_runs(2, 4),
            uni::four_nt(5),
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Want {
    Sound,
    Accept,
    ExactlyOnce,
    Cyclic,
}

const TREE_CAP: usize = 3000;

/// How many of the infinitely many trees are looked at, and how early small trees must come.
const TAKE_INF: usize = 60;

fn judge(want: Want, g: &Rg, parser: &bnf::GrammarParser, input: &str, cx: &mut Cx) -> Res {
    let start = g.start();
    let rec = Rec::new(g, input);
    let n = input.len();
    let accepted = rec.accepts(start);
    let finite = rec.search_finite(start);
    let ctx = |msg: String| format!("grammar {} input {input:?}: {msg}", g.show());
    cx.states += 1;
    if finite {
        if want == Want::Cyclic {
            return Ok(());
        }
        match want {
            Want::Sound => {
                for t in parser.parse_input(input).take(TREE_CAP) {
                    cx.transitions += 1;
                    check_tree(g, start, input, &t).map_err(|e| ctx(format!("tree {} : {e}", canon(&t))))?;
                    if !accepted {
                        return Err(ctx(format!("tree {} for an input that is not derivable", canon(&t))));
                    }
                }
                cx.traces += 1;
            }
            Want::Accept => {
                let got = parser.parse_input(input).next().is_some();
                cx.transitions += 1;
                cx.traces += 1;
                if got != accepted {
                    return Err(ctx(format!("accepted = {got}, derivable = {accepted}")));
                }
            }
            Want::ExactlyOnce => {
                let mut memo = HashMap::new();
                let Some(trees) = rec.trees(start, 0, n, TREE_CAP, &mut memo) else {
                    cx.bump("skipped_too_many_trees", 1);
                    return Ok(());
                };
                let mut want: Vec<String> = if accepted { trees.to_vec() } else { vec![] };
                let mut it = parser.parse_input(input);
                let mut got: Vec<String> = vec![];
                while let Some(t) = it.next() {
                    cx.transitions += 1;
                    got.push(canon(&t));
                    if got.len() > want.len() + 2 {
                        break;
                    }
                }
                if got.len() <= want.len() {
                    for _ in 0..3 {
                        cx.transitions += 1;
                        if it.next().is_some() {
                            return Err(ctx("iterator yields a tree after it has ended".into()));
                        }
                    }
                }
                want.sort();
                let mut sorted = got.clone();
                sorted.sort();
                if sorted != want {
                    return Err(ctx(format!("trees {got:?}, expected (in any order) {want:?}")));
                }
                cx.traces += 1;
            }
            Want::Cyclic => unreachable!(),
        }
        cx.sample(|| format!("{} input {input:?}: finite search, derivable={accepted}", g.show()));
        return Ok(());
    }
    cx.bump("infinite_searches", 1);
    if !accepted {
        // Known finding K1: this search never ends. Nothing to compare.
        cx.bump("infinite_search_rejected_skipped", 1);
        return Ok(());
    }
    let mut memo = HashMap::new();
    let infinite_trees = rec.infinite(start, 0, n, &mut memo);
    let budget = SEARCH_BUDGET;
    let lv = rec.levels(start, budget);
    let affordable = lv.affordable(budget) as usize;
    if affordable == 0 {
        // Known finding K4: the breadth-first search over single derivations explodes before
        // it reaches the first tree.
        cx.bump("infinite_search_explodes_skipped", 1);
        return Ok(());
    }
    match want {
        Want::Accept => {
            cx.transitions += 1;
            cx.traces += 1;
            if parser.parse_input(input).next().is_none() {
                return Err(ctx("rejected, but derivable".into()));
            }
        }
        Want::Sound => {
            for t in parser.parse_input(input).take(affordable.min(25)) {
                cx.transitions += 1;
                check_tree(g, start, input, &t).map_err(|e| ctx(format!("tree {} : {e}", canon(&t))))?;
            }
            cx.traces += 1;
        }
        Want::ExactlyOnce => {
            // outside the property's hypothesis (C04 covers it)
            cx.bump("infinite_search_left_to_C04", 1);
        }
        Want::Cyclic => {
            if !infinite_trees {
                // finitely many trees inside an infinite search: exactly those trees must come
                let mut memo = HashMap::new();
                let Some(trees) = rec.trees(start, 0, n, TREE_CAP, &mut memo) else {
                    return Ok(());
                };
                let mut want = trees.to_vec();
                if affordable < want.len() {
                    cx.bump("infinite_search_explodes_skipped", 1);
                    return Ok(());
                }
                let mut got: Vec<String> =
                    parser.parse_input(input).take(want.len()).map(|t| canon(&t)).collect();
                cx.transitions += got.len() as u64;
                got.sort();
                want.sort();
                if got != want {
                    return Err(ctx(format!("trees {got:?}, expected (in any order) {want:?}")));
                }
                cx.traces += 1;
                cx.bump("finite_trees_in_infinite_search", 1);
                return Ok(());
            }
            // the small trees that must not be starved: those of the lowest search levels must
            // come within four times as many trees as there are up to their level
            let mut must: Vec<String> = vec![];
            let mut limit = 0usize;
            for h in 1..=5 {
                let Some(t) = rec.trees_upto(start, 0, n, h, 60, &lv) else { break };
                if t.is_empty() {
                    continue;
                }
                let level = t.iter().map(|x| x.1).max().unwrap();
                let due = lv.trees_by(level).saturating_mul(4).saturating_add(40);
                if due > affordable as u64 {
                    break;
                }
                limit = due as usize;
                must = t.into_iter().map(|x| x.0).collect();
            }
            let take = affordable.min(TAKE_INF).max(limit);
            let mut want: HashMap<&str, usize> = HashMap::new();
            for m in &must {
                *want.entry(m).or_default() += 1;
            }
            let mut seen: HashMap<String, usize> = HashMap::new();
            let mut got = 0usize;
            let mut missing: usize = must.len();
            let mut last_needed = 0;
            let mut it = parser.parse_input(input);
            while got < take {
                let Some(t) = it.next() else {
                    return Err(ctx(format!("stream ended after {got} trees, there are infinitely many")));
                };
                got += 1;
                cx.transitions += 1;
                check_tree(g, start, input, &t).map_err(|e| ctx(format!("tree {} : {e}", canon(&t))))?;
                let c = canon(&t);
                let k = seen.entry(c.clone()).or_default();
                *k += 1;
                if let Some(w) = want.get(c.as_str())
                    && *k <= *w
                {
                    missing -= 1;
                    last_needed = got;
                }
                if *k > multiplicity(g, &t) {
                    return Err(ctx(format!("tree {c} came {k} times within the first {got}")));
                }
                if missing == 0 && got >= TAKE_INF {
                    break;
                }
            }
            if missing > 0 {
                let miss: Vec<&String> = must.iter().filter(|m| !seen.contains_key(m.as_str())).collect();
                return Err(ctx(format!("small trees did not come within the first {got}: {miss:?}")));
            }
            cx.bump("infinite_ambiguity_streams", 1);
            cx.bump("small_trees_awaited", must.len() as u64);
            if last_needed * 4 > limit {
                cx.bump("small_trees_in_last_three_quarters_of_limit", 1);
            }
            cx.traces += 1;
            cx.sample(|| format!("{} input {input:?}: infinitely many trees, {got} taken; {} small trees, the last at {last_needed} (limit {limit})", g.show(), must.len()));
        }
    }
    Ok(())
}

/// Partial derivations the search may have to build for a case with infinitely many
/// derivations to be explored.
const SEARCH_BUDGET: u64 = 6000;

/// Trees certainly obtainable (at most `max`) from an input, whatever the search.
pub fn obtainable(rec: &Rec, start: usize, max: usize) -> usize {
    if rec.search_finite(start) {
        return max;
    }
    if !rec.accepts(start) {
        return 0;
    }
    (rec.levels(start, SEARCH_BUDGET).affordable(SEARCH_BUDGET) as usize).min(max)
}

/// In how many ways the same tree value arises (repeated identical alternatives).
fn multiplicity(g: &Rg, t: &bnf::ParseTree) -> usize {
    let nt = match t.lhs {
        bnf::Term::Nonterminal(n) => g.nn.iter().position(|x| x == n).unwrap_or(usize::MAX),
        _ => usize::MAX,
    };
    let rhs: Vec<Sym> = t
        .rhs_iter()
        .map(|c| match c {
            bnf::ParseTreeNode::Terminal(x) => Sym::T(g.tn.iter().position(|y| y == x).unwrap_or(usize::MAX)),
            bnf::ParseTreeNode::Nonterminal(p) => match p.lhs {
                bnf::Term::Nonterminal(n) => Sym::N(g.nn.iter().position(|x| x == n).unwrap_or(usize::MAX)),
                _ => Sym::N(usize::MAX),
            },
        })
        .collect();
    let here = g.alts_of(nt).iter().filter(|a| **a == rhs.as_slice()).count();
    let below: usize = t
        .rhs_iter()
        .map(|c| match c {
            bnf::ParseTreeNode::Nonterminal(p) => multiplicity(g, p),
            _ => 1,
        })
        .product();
    here * below
}

pub fn grammar_case(want: Want, g: &Rg, inputs: &[String], cx: &mut Cx) -> Res {
    if !g.closed() {
        return Ok(());
    }
    let gram = g.to_bnf();
    let parser = gram.build_parser().map_err(|e| format!("{}: build_parser failed: {e}", g.show()))?;
    for input in inputs {
        judge(want, g, &parser, input, cx)?;
    }
    Ok(())
}

/// Productions that define a terminal define no symbol and change no parse.
fn strangers(want: Want, tier: Tier) -> Stage {
    let u = uni::two_nt_split(tier.pick(2, 3));
    stage("terminal-left-hand-sides", format!("productions with a terminal spelled like each symbol and terminal on the left, second and last; {}", u.bounds()), u.count(), move |i, cx| {
        let g = u.get(i);
        if !g.closed() {
            return Ok(());
        }
        let t = |s: &str| bnf::Term::Terminal(s.into());
        let extra = |e: &dyn Fn(&str) -> Vec<bnf::Term>| -> Vec<bnf::Production> {
            g.nn.iter().chain(&g.tn).map(|n| bnf::Production::from_parts(t(n), vec![bnf::Expression::from_parts(e(n)), bnf::Expression::from_parts(vec![])])).collect()
        };
        let mut ps: Vec<bnf::Production> = g.to_bnf().productions_iter().cloned().collect();
        ps.splice(1..1, extra(&|_| vec![t("a")]));
        ps.extend(extra(&|_| vec![bnf::Term::Nonterminal(g.nn[0].clone()), t("b")]));
        let gram = bnf::Grammar::from_parts(ps);
        let parser = gram.build_parser().map_err(|e| format!("{gram}: build_parser failed: {e}"))?;
        for input in &u.inputs {
            judge(want, &g, &parser, input, cx).map_err(|e| format!("with productions for terminals: {e}"))?;
        }
        Ok(())
    })
}

/// Productions without alternatives, at every place.
pub fn bare_productions(tier: Tier) -> (u64, String, impl Fn(u64) -> Rg + Clone + Send + Sync + 'static) {
    use Sym::{N, T};
    let kinds: Vec<(usize, Vec<Vec<Sym>>)> = vec![
        (0, vec![]),
        (1, vec![]),
        (0, vec![vec![T(0)]]),
        (1, vec![vec![T(1)]]),
        (0, vec![vec![N(1)], vec![T(0), N(1)]]),
        (1, vec![vec![N(0), T(1)], vec![T(0)]]),
        (2, vec![]),
        (0, vec![vec![N(2)], vec![T(1)]]),
    ];
    let seq = Seqs { radix: kinds.len() as u64, lo: 1, hi: tier.pick(4, 5) };
    (seq.count(), format!("all sequences of 1..{} of {} productions, three of them without alternatives", seq.hi, kinds.len()), move |i| Rg {
        tn: uni::strs(&["a", "b"]),
        nn: uni::strs(&["S", "A", "Z"]),
        prods: seq.get(i).into_iter().map(|k| kinds[k].clone()).collect(),
    })
}

/// The same small grammars over letters that other tools treat specially.
fn odd_alphabets(want: Want, tier: Tier) -> Stage {
    use Sym::{N, T};
    const ALPHABETS: [[&str; 2]; 16] = [
        [" ", "\n"], ["\r", "\n"], ["\t", "\u{a0}"], ["\u{3000}", "\u{feff}"], ["\0", "\u{85}"], ["'", "\""], ["<", ">"], ["\\", "n"], ["|", ";"], ["e", "\u{301}"], ["é", "É"], ["a", "A"],
        ["ß", "ss"], ["0", "00"], ["\u{200d}", "👨"], ["\u{2028}", "\u{b}"],
    ];
    let us: Vec<Uni> = ALPHABETS
        .iter()
        .map(|a| Uni {
            name: "odd-alphabets",
            tn: uni::strs(a),
            nn: uni::strs(&["S", "A"]),
            nts: vec![uni::spec(&[N(0), N(1), T(0), T(1)], (0, 2), (1, tier.pick(1, 2))), uni::spec(&[N(1), T(0), T(1)], (0, 2), (1, 2))],
            inputs: uni::inputs(a, tier.pick(3, 4)),
            split: false,
        })
        .collect();
    let per = us[0].count();
    stage("odd-alphabets", format!("{} alphabets of white space, control, quoting, combining and folding characters; {}", us.len(), us[0].bounds()), per * us.len() as u64, move |i, cx| {
        let u = &us[(i / per) as usize];
        grammar_case(want, &u.get(i % per), &u.inputs, cx)
    })
}

pub fn stages(want: Want, tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let (n, bounds, get) = bare_productions(tier);
    let inputs = uni::inputs(&["a", "b"], 3);
    out.push(stage("without-alternatives", bounds, n, move |i, cx| grammar_case(want, &get(i), &inputs, cx)));
    out.push(odd_alphabets(want, tier));
    if want != Want::Cyclic {
        out.push(long_inputs(want, tier));
        let fam = Arc::new(uni::families(tier.pick(40, 60), tier.pick(8, 10)));
        let n = fam.len() as u64;
        out.push(stage("scaling-families", format!("{n} grammars, one dimension scaled up to {}", tier.pick(40, 60)), n, move |i, cx| {
            let (what, g, inputs) = &fam[i as usize];
            let inputs: Vec<String> = inputs.iter().filter(|s| s.len() <= MAX_INPUT).cloned().collect();
            grammar_case(want, g, &inputs, cx).map_err(|e| format!("[{what}] {e}"))
        }));
    }
    if want == Want::Cyclic {
        out.push(long_streams(tier));
        out.push(long_cycles(tier));
        out.push(crate::big::wide_streams(tier));
    } else {
        out.push(crate::big::confusables(want));
        out.push(crate::big::confusable_names(want));
        out.push(crate::big::near_misses(want, tier));
        out.push(crate::big::huge_inputs(want, tier));
        out.push(crate::big::huge_grammars(want, tier));
        out.push(crate::big::many_trees(want, tier));
    }
    out.extend(crate::big::shifted(want, tier));
    out.push(strangers(want, tier));
    for u in universes(tier) {
        let n = u.count();
        out.push(stage(u.name, u.bounds(), n, move |i, cx| {
            let g = u.get(i);
            grammar_case(want, &g, &u.inputs, cx)
        }));
    }
    out
}

/// Unambiguous grammars whose language is known in closed form, on inputs far longer than the
/// reference recogniser handles: exactly one tree, or none.
fn long_inputs(want: Want, tier: Tier) -> Stage {
    use Sym::{N, T};
    let g1 = |tn: &[&str], alts: Vec<Vec<Sym>>| Rg { tn: uni::strs(tn), nn: uni::strs(&["S"]), prods: vec![(0, alts)] };
    let mut lens: Vec<usize> = vec![64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300];
    let mut linear: Vec<usize> = vec![500, 511, 512, 513, 1000, 1023, 1024, 1025];
    if tier == Tier::Thorough {
        lens = (61..=300).chain([400, 511, 512, 513]).collect();
        linear = (301..=600).step_by(7).chain([1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097]).collect();
    }
    let mut cases: Vec<(String, Rg, String, bool)> = vec![];
    for &n in lens.iter().chain(&linear) {
        let a = "a".repeat(n);
        let bad_end = a.clone() + "b";
        let bad_mid = "a".repeat(n / 2) + "b" + &"a".repeat(n - n / 2);
        let left = g1(&["a"], vec![vec![N(0), T(0)], vec![T(0)]]);
        for (i, ok) in [(&a, true), (&bad_end, false), (&bad_mid, false)] {
            cases.push((format!("left recursion {n}"), left.clone(), i.clone(), ok));
        }
        // letters alternate and are multi-byte: every offset is beyond every character count
        let e = "éa".repeat(n / 2);
        let multi = g1(&["é", "a"], vec![vec![N(0), T(0), T(1)], vec![T(0), T(1)]]);
        cases.push((format!("multi-byte left recursion {n}"), multi.clone(), e.clone(), true));
        cases.push((format!("multi-byte left recursion {n}"), multi, e + "é", false));
        let one = g1(&["a"], vec![vec![T(0); n]]);
        cases.push((format!("{n} terminals"), one.clone(), a.clone(), true));
        cases.push((format!("{n} terminals"), one.clone(), a.clone() + "a", false));
        cases.push((format!("{n} terminals"), one, "a".repeat(n - 1), false));
        let lit = g1(&[&a], vec![vec![T(0)]]);
        cases.push((format!("a terminal of {n} letters"), lit.clone(), a.clone(), true));
        cases.push((format!("a terminal of {n} letters"), lit.clone(), "a".repeat(n - 1), false));
        cases.push((format!("a terminal of {n} letters"), lit, "a".repeat(n - 1) + "b", false));
        if linear.contains(&n) && n > 600 {
            continue;
        }
        let right = g1(&["a"], vec![vec![T(0), N(0)], vec![T(0)]]);
        for (i, ok) in [(&a, true), (&bad_end, false), (&bad_mid, false)] {
            cases.push((format!("right recursion {n}"), right.clone(), i.clone(), ok));
        }
        let nest = "(".repeat(n) + &")".repeat(n);
        let bal = g1(&["(", ")"], vec![vec![T(0), N(0), T(1)], vec![]]);
        cases.push((format!("nesting {n}"), bal.clone(), nest.clone(), true));
        cases.push((format!("nesting {n}"), bal.clone(), nest.clone() + ")", false));
        cases.push((format!("nesting {n}"), bal, "(".to_string() + &nest, false));
        // n nonterminals, each a production of its own
        let nn: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
        let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n - 1).map(|i| (i, vec![vec![N(i + 1)]])).collect();
        prods.push((n - 1, vec![vec![T(0)]]));
        let chain = Rg { tn: uni::strs(&["a"]), nn: nn.clone(), prods };
        cases.push((format!("chain of {n} symbols"), chain.clone(), "a".into(), true));
        cases.push((format!("chain of {n} symbols"), chain, "aa".into(), false));
        // one right-hand side of n different nonterminals
        let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = vec![(0, vec![(1..n).map(N).collect()])];
        prods.extend((1..n).map(|i| (i, vec![vec![T(i % 2)]])));
        let seq = Rg { tn: uni::strs(&["a", "b"]), nn, prods };
        let text: String = (1..n).map(|i| if i % 2 == 0 { 'a' } else { 'b' }).collect();
        cases.push((format!("{n} different symbols in a row"), seq.clone(), text.clone(), true));
        cases.push((format!("{n} different symbols in a row"), seq, text + "a", false));
        // n productions of the same symbol; the last, first and middle one
        let tn: Vec<String> = (0..n).map(|i| format!("t{i};")).collect();
        let many = Rg { tn: tn.clone(), nn: uni::strs(&["S"]), prods: (0..n).map(|i| (0, vec![vec![T(i)]])).collect() };
        let alts = Rg { tn: tn.clone(), nn: uni::strs(&["S"]), prods: vec![(0, (0..n).map(|i| vec![T(i)]).collect())] };
        for k in [0, n / 2, n - 1] {
            cases.push((format!("{n} productions"), many.clone(), tn[k].clone(), true));
            cases.push((format!("{n} alternatives"), alts.clone(), tn[k].clone(), true));
        }
        cases.push((format!("{n} productions"), many, format!("t{n};"), false));
        cases.push((format!("{n} alternatives"), alts, format!("t{n};"), false));
    }
    let n = cases.len() as u64;
    stage("long-inputs", format!("{n} (grammar, input) pairs with lengths, rule counts or nesting up to {}", linear.iter().max().unwrap()), n, move |i, cx| {
        let (what, g, input, ok) = &cases[i as usize];
        let gram = g.to_bnf();
        let parser = gram.build_parser().map_err(|e| format!("[{what}] build_parser failed: {e}"))?;
        let mut it = parser.parse_input(input);
        cx.states += 1;
        let first = it.next();
        cx.transitions += 1;
        if want != Want::Sound && first.is_some() != *ok {
            return Err(format!("[{what}] input of {} bytes: accepted = {}, derivable = {ok}", input.len(), first.is_some()));
        }
        if let (Want::Sound, Some(t)) = (want, &first) {
            check_tree(g, g.start(), input, t).map_err(|e| format!("[{what}] {e}"))?;
            if !ok {
                return Err(format!("[{what}] a tree for an input that is not derivable"));
            }
        }
        if want == Want::ExactlyOnce {
            cx.transitions += 1;
            if it.next().is_some() {
                return Err(format!("[{what}] input of {} bytes has more than one tree", input.len()));
            }
        }
        cx.traces += 1;
        cx.sample(|| format!("{what}: {} bytes, derivable={ok}", input.len()));
        Ok(())
    })
}

/// Cycles whose trees are known in closed form (one per number of rounds), followed far.
fn long_streams(tier: Tier) -> Stage {
    use Sym::{N, T};
    let take = tier.pick(700usize, 3000);
    let mut cases: Vec<(String, Rg, String, usize)> = vec![];
    for k in 1..=tier.pick(6, 12) {
        // n0 -> n1 -> ... -> n(k-1) -> n0 | a
        let nn: Vec<String> = (0..k).map(|i| format!("n{i}")).collect();
        let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..k - 1).map(|i| (i, vec![vec![N(i + 1)]])).collect();
        for order in 0..2 {
            let mut last = vec![vec![N(0)], vec![T(0)]];
            if order == 1 {
                last.reverse();
            }
            prods.push((k - 1, last));
            let g = Rg { tn: uni::strs(&["a"]), nn: nn.clone(), prods: prods.clone() };
            cases.push((format!("unit cycle of {k}, order {order}"), g, "a".into(), take / k));
            prods.pop();
        }
        // the cycle sits inside a word
        let mut p2: Vec<(usize, Vec<Vec<Sym>>)> = vec![(k, vec![vec![T(0), N(0), T(0)]])];
        p2.extend(prods.iter().cloned());
        p2.push((k - 1, vec![vec![N(0)]]));
        p2.push((k - 1, vec![vec![T(1)]]));
        let mut nn2 = nn.clone();
        nn2.push("S".into());
        cases.push((
            format!("unit cycle of {k} inside a word"),
            Rg { tn: uni::strs(&["a", "bb"]), nn: nn2, prods: p2 },
            "abba".into(),
            take / k,
        ));
    }
    for (what, alt) in [("left", vec![N(0), N(1)]), ("right", vec![N(1), N(0)]), ("both", vec![N(1), N(0), N(1)])] {
        for empty in [vec![], vec![T(1)]] {
            for last in [0, 1] {
                let mut alts = vec![alt.clone(), vec![T(0)]];
                if last == 1 {
                    alts.reverse();
                }
                let g = Rg { tn: uni::strs(&["a", ""]), nn: uni::strs(&["S", "E"]), prods: vec![(0, alts), (1, vec![empty.clone()])] };
                cases.push((format!("nullable cycle on the {what}"), g, "a".into(), take / 2));
            }
        }
    }
    let n = cases.len() as u64;
    stage("long-streams", format!("{n} cyclic grammars with one tree per number of rounds: the first {take} rounds (per cycle length)"), n, move |i, cx| {
        let (what, g, input, take) = &cases[i as usize];
        rounds(what, g, input, *take, cx)
    })
}

/// Cycles around and inside long inputs: the terminals or the numbers of letters are scaled.
fn long_cycles(tier: Tier) -> Stage {
    use Sym::{N, T};
    let mut ls: Vec<usize> = (2..=tier.pick(140, 300)).collect();
    for b in [255usize, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537] {
        ls.push(b);
    }
    let letters = tier.pick(140, 300);
    let n = ls.len() as u64;
    stage("long-cycles", format!("{n} lengths up to {}: 6 cyclic grammars around one long terminal, and (up to {letters}) around as many letters in a row; the first 8 rounds", ls.iter().max().unwrap()), n, move |i, cx| {
        let l = ls[i as usize];
        let long = "ab".repeat(l / 2) + if l % 2 == 1 { "a" } else { "" };
        let input = long.clone();
        // X: the long terminal, or its letters one by one
        let xs: Vec<(&str, Vec<Vec<Sym>>)> = vec![("one terminal", vec![vec![T(2)]]), ("letters", vec![vec![T(0), N(2)], vec![T(1), N(2)], vec![T(0)], vec![T(1)]])];
        for (how, x) in xs.into_iter().take(if l <= letters { 2 } else { 1 }) {
            let cyc: [(&str, Vec<(usize, Vec<Vec<Sym>>)>); 6] = [
                ("unit cycle", vec![(0, vec![vec![N(1)], vec![N(2)]]), (1, vec![vec![N(0)]])]),
                ("unit cycle of the start itself", vec![(0, vec![vec![N(0)], vec![N(2)]]), (1, vec![vec![T(0)]])]),
                ("nullable cycle on the left", vec![(0, vec![vec![N(1), N(0)], vec![N(2)]]), (1, vec![vec![]])]),
                ("nullable cycle on the right", vec![(0, vec![vec![N(0), N(1)], vec![N(2)]]), (1, vec![vec![T(3)]])]),
                ("cycle of another symbol", vec![(0, vec![vec![N(1)]]), (1, vec![vec![N(1)], vec![N(2)]])]),
                ("cycle at the end", vec![(0, vec![vec![N(2), N(1)]]), (1, vec![vec![N(1)], vec![T(3)]])]),
            ];
            for (what, mut prods) in cyc {
                prods.push((2, x.clone()));
                let g = Rg { tn: vec!["a".into(), "b".into(), long.clone(), String::new()], nn: uni::strs(&["S", "E", "X"]), prods };
                rounds(&format!("{what}, {how}, {l} letters"), &g, &input, 8, cx).map_err(|e| e.chars().take(600).collect::<String>())?;
            }
        }
        Ok(())
    })
}

/// One tree per number of rounds: the first `take` trees are valid, different, and miss none of
/// the first rounds.
fn rounds(what: &str, g: &Rg, input: &str, take: usize, cx: &mut Cx) -> Res {
        let take = &take;
        let gram = g.to_bnf();
        let parser = gram.build_parser().map_err(|e| format!("[{what}] build_parser failed: {e}"))?;
        cx.states += 1;
        let size = |t: &bnf::ParseTree| {
            let mut n = 1usize;
            let mut todo: Vec<&bnf::ParseTree> = vec![t];
            while let Some(t) = todo.pop() {
                for c in t.rhs_iter() {
                    if let bnf::ParseTreeNode::Nonterminal(p) = c {
                        n += 1;
                        todo.push(p);
                    }
                }
            }
            n
        };
        let mut sizes = vec![];
        for t in parser.parse_input(input).take(*take) {
            cx.transitions += 1;
            check_tree(g, g.start(), input, &t).map_err(|e| format!("[{what}] {e}"))?;
            sizes.push(size(&t));
        }
        if sizes.len() < *take {
            return Err(format!("[{what}] {}: the stream ended after {} trees, there are infinitely many", g.show(), sizes.len()));
        }
        // trees are determined by their size here; sizes form an arithmetic progression
        let mut sorted = sizes.clone();
        sorted.sort_unstable();
        sorted.dedup();
        if sorted.len() != sizes.len() {
            return Err(format!("[{what}] {}: a tree came twice within the first {take}", g.show()));
        }
        let step = sorted[1] - sorted[0];
        // nothing starved: of the rounds 0..take/2, all have come
        for r in 0..take / 2 {
            if sorted[r] != sorted[0] + r * step {
                return Err(format!("[{what}] {}: the tree with {r} rounds is missing from the first {take}", g.show()));
            }
        }
        cx.traces += 1;
        cx.sample(|| format!("[{what}] {take} trees"));
        Ok(())
}

// ---------------------------------------------------------------- C05

fn drain(it: impl Iterator<Item = String>, cap: usize) -> Vec<String> {
    it.take(cap).collect()
}

/// Start symbols: every nonterminal, an undefined one, terminals with the same spelling.
#[allow(deprecated)]
fn start_case(g: &Rg, inputs: &[String], cx: &mut Cx) -> Res {
    let gram = g.to_bnf();
    let parser = gram.build_parser();
    if parser.is_ok() != g.closed() {
        return Err(format!("{}: build_parser = {:?}", g.show(), parser.map(|_| ())));
    }
    let mut starts: Vec<(bnf::Term, Option<usize>)> =
        (0..g.nn.len()).map(|n| (g.term(Sym::N(n)), Some(n))).collect();
    for none in ["no such symbol", ""] {
        if !g.nn.iter().any(|n| n == none) {
            starts.push((bnf::Term::Nonterminal(none.into()), None));
        }
    }
    for n in &g.nn {
        starts.push((bnf::Term::Terminal(n.clone()), None));
    }
    for t in &g.tn {
        starts.push((bnf::Term::Terminal(t.clone()), None));
        if !g.nn.contains(t) {
            starts.push((bnf::Term::Nonterminal(t.clone()), None));
        }
    }
    for input in inputs {
        let rec = Rec::new(g, input);
        for (k, (term, nt)) in std::iter::once((None, Some(g.start())))
            .chain(starts.iter().map(|(t, n)| (Some(t), *n)))
            .enumerate()
        {
            cx.states += 1;
            let ctx = |m: String| format!("grammar {} start {term:?} input {input:?}: {m}", g.show());
            let (mut want, finite) = match nt {
                None => (vec![], true),
                Some(nt) if !rec.search_finite(nt) => (vec![], false),
                Some(nt) if !rec.accepts(nt) => (vec![], true),
                Some(nt) => {
                    let mut memo = HashMap::new();
                    match rec.trees(nt, 0, input.len(), 500, &mut memo) {
                        Some(t) => (t.to_vec(), true),
                        None => continue,
                    }
                }
            };
            let cap = if finite { want.len() + 2 } else { obtainable(&rec, nt.unwrap(), 6) };
            if !finite && cap == 0 {
                continue; // K1, K4
            }
            let old = match term {
                None => drain(gram.parse_input(input).map(|t| canon(&t)), cap),
                Some(t) => drain(gram.parse_input_starting_with(input, t).map(|t| canon(&t)), cap),
            };
            cx.transitions += 1 + old.len() as u64;
            if let Ok(p) = &parser {
                let new = match term {
                    None => drain(p.parse_input(input).map(|t| canon(&t)), cap),
                    Some(t) => drain(p.parse_input_starting_with(input, t).map(|t| canon(&t)), cap),
                };
                cx.transitions += 1 + new.len() as u64;
                if new != old {
                    return Err(ctx(format!("parser gives {new:?}, grammar-level method gives {old:?}")));
                }
            }
            if finite {
                let mut got = old;
                got.sort();
                want.sort();
                if got != want {
                    return Err(ctx(format!("trees {got:?}, expected {want:?}")));
                }
            } else {
                let head = format!("({}", g.nn[nt.unwrap()]);
                for t in &old {
                    if !t.starts_with(&head) {
                        return Err(ctx(format!("tree {t} is not rooted at the start symbol")));
                    }
                }
                if old.len() < cap {
                    return Err(ctx(format!("only {} trees", old.len())));
                }
            }
            cx.traces += 1;
            if k == 2 {
                cx.sample(|| format!("{} start {term:?} input {input:?}: {} trees", g.show(), want.len()));
            }
        }
    }
    Ok(())
}

pub fn c05(tier: Tier) -> Vec<Stage> {
    use Sym::{N, T};
    let mut us = vec![];
    let s = [N(0), N(1), T(0), T(1)];
    // <S> also occurs as a terminal; <U> is never defined
    us.push(Uni {
        name: "every-start-symbol",
        tn: uni::strs(&["a", "S"]),
        nn: uni::strs(&["S", "A"]),
        nts: vec![uni::spec(&s, (0, 2), (1, 2)), uni::spec(&s, (0, 2), (1, 1))],
        inputs: uni::inputs(&["a", "S"], tier.pick(2, 3)),
        split: false,
    });
    us.push(Uni {
        name: "split-first-symbol",
        tn: uni::strs(&["a"]),
        nn: uni::strs(&["S", "A"]),
        nts: vec![uni::spec(&[N(0), N(1), T(0)], (0, 2), (1, 2)), uni::spec(&[N(0), N(1), T(0)], (0, 2), (1, 2))],
        inputs: uni::inputs(&["a"], tier.pick(3, 4)),
        split: true,
    });
    us.push(Uni {
        name: "undefined-symbols",
        tn: uni::strs(&["a"]),
        nn: uni::strs(&["S", "A", "U"]),
        nts: vec![
            uni::spec(&[N(0), N(1), N(2), T(0)], (1, 2), (1, 2)),
            uni::spec(&[N(2), T(0)], (0, 2), (1, tier.pick(2, 3))),
        ],
        inputs: uni::inputs(&["a"], 3),
        split: false,
    });
    let mut out = vec![];
    let fam = Arc::new(uni::families(tier.pick(16, 30), tier.pick(5, 6)));
    out.push(stage("scaling-families", "families of C01, every start symbol", fam.len() as u64, move |i, cx| {
        let (what, g, inputs) = &fam[i as usize];
        let mut inputs: Vec<String> = inputs.iter().filter(|s| s.len() <= MAX_INPUT).cloned().collect();
        inputs.truncate(4);
        start_case(g, &inputs, cx).map_err(|e| format!("[{what}] {e}"))
    }));
    for u in us {
        out.push(stage(u.name, u.bounds(), u.count(), move |i, cx| start_case(&u.get(i), &u.inputs, cx)));
    }
    let (n, bounds, get) = bare_productions(tier);
    let inputs = uni::inputs(&["a", "b"], 2);
    out.push(stage("without-alternatives", bounds, n, move |i, cx| start_case(&get(i), &inputs, cx)));
    out.push(confusable_starts());
    out.push(huge_starts(tier));
    out
}

// ---------------------------------------------------------------- C06

/// The grammars whose parsers are used together. They share symbol names on purpose.
fn c06_grammars() -> Vec<(Rg, [&'static str; 2])> {
    use Sym::{N, T};
    let g = |tn: &[&str], prods: Vec<(usize, Vec<Vec<Sym>>)>| Rg {
        tn: uni::strs(tn),
        nn: uni::strs(&["S", "A"]),
        prods,
    };
    vec![
        (g(&["a", "b"], vec![(0, vec![vec![N(0), N(0)], vec![T(0)]]), (1, vec![vec![T(1)]])]), ["aaa", "aa"]),
        (g(&["a", "b"], vec![(0, vec![vec![T(0), N(0)], vec![N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]), ["aaa", "aab"]),
        (g(&["a", ""], vec![(0, vec![vec![N(1), N(1), N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]), ["aa", "a"]),
        (g(&["a"], vec![(0, vec![vec![N(0)], vec![T(0)]])]), ["a", "a"]),
        (g(&["a", "aa"], vec![(0, vec![vec![N(1), N(0)], vec![]]), (1, vec![vec![T(0)], vec![T(1)]])]), ["aaa", "aaaa"]),
        (g(&["a"], vec![(0, vec![vec![N(1)], vec![N(1)]]), (1, vec![vec![T(0)], vec![N(0)]])]), ["a", "a"]),
        (g(&["é", "a"], vec![(0, vec![vec![N(0), T(1), N(0)], vec![T(0)]]), (1, vec![])]), ["éaéaé", "éaé"]),
        (g(&["a", "b"], vec![(0, vec![vec![N(0), N(1)], vec![N(1)]]), (1, vec![vec![T(0)], vec![N(1), N(1)]])]), ["aaa", "ab"]),
    ]
}

const C06_LEN: usize = 5;

fn first_trees<'g>(it: impl Iterator<Item = bnf::ParseTree<'g>>, n: usize) -> Vec<Option<String>> {
    let mut it = it;
    (0..n).map(|_| it.next().map(|t| canon(&t))).collect()
}

/// The trees a stand-alone run gives, at most C06_LEN steps, never stepping into a search that
/// would not return (K1).
fn safe_steps(g: &Rg, input: &str) -> usize {
    obtainable(&Rec::new(g, input), g.start(), C06_LEN)
}

/// Explore every sequence of operations of the given depth on the parsers of two grammars.
fn c06_history(pair: (usize, usize), ops: &[usize], gs: &[(Rg, [&'static str; 2])], cx: &mut Cx) -> Res {
    let (ga, gb) = (&gs[pair.0], &gs[pair.1]);
    let gram_a = ga.0.to_bnf();
    let gram_b = gb.0.to_bnf();
    let gram_c = gram_a.clone();
    let pa = gram_a.build_parser().map_err(|e| e.to_string())?;
    let pb = gram_b.build_parser().map_err(|e| e.to_string())?;
    let pc = gram_c.build_parser().map_err(|e| e.to_string())?;
    // four iterators: two inputs on one parser, the same input on the other grammar's parser,
    // and the clone's parser
    let inputs: [&str; 4] = [ga.1[0], ga.1[1], gb.1[0], ga.1[0]];
    let lens = [
        safe_steps(&ga.0, inputs[0]),
        safe_steps(&ga.0, inputs[1]),
        safe_steps(&gb.0, inputs[2]),
        safe_steps(&ga.0, inputs[3]),
    ];
    type It<'a> = Box<dyn Iterator<Item = bnf::ParseTree<'a>> + 'a>;
    let make = |k: usize| -> It<'_> {
        match k {
            0 => Box::new(pa.parse_input(inputs[0])),
            1 => Box::new(pa.parse_input(inputs[1])),
            2 => Box::new(pb.parse_input(inputs[2])),
            _ => Box::new(pc.parse_input(inputs[3])),
        }
    };
    // the specification: what each of them gives alone, taken from fresh values
    let expect: Vec<Vec<Option<String>>> = (0..4)
        .map(|k| {
            let fresh = if k == 2 { gb.0.to_bnf() } else { ga.0.to_bnf() };
            let p = fresh.build_parser().unwrap();
            first_trees(p.parse_input(inputs[k]), lens[k])
        })
        .collect();
    let mut its: Vec<It<'_>> = (0..4).map(&make).collect();
    let mut pos = [0usize; 4];
    for (step, &op) in ops.iter().enumerate() {
        cx.transitions += 1;
        match op {
            0..=3 => {
                if pos[op] >= lens[op] {
                    continue;
                }
                let got = its[op].next().map(|t| canon(&t));
                if got != expect[op][pos[op]] {
                    return Err(format!(
                        "grammars {} / {} inputs {inputs:?} operations {:?}: step {step} on iterator {op} gives {got:?}, alone it gives {:?}",
                        ga.0.show(), gb.0.show(), &ops[..=step], expect[op][pos[op]]
                    ));
                }
                pos[op] += 1;
            }
            4 | 5 => {
                // abandon an iterator half-way and start over
                let k = if op == 4 { 0 } else { 2 };
                its[k] = make(k);
                pos[k] = 0;
            }
            6 => {
                // build, use and drop another parser of the other grammar, same input
                let other = gb.0.to_bnf();
                let p = other.build_parser().unwrap();
                let n = safe_steps(&gb.0, inputs[0]).min(2);
                first_trees(p.parse_input(inputs[0]), n);
            }
            _ => {
                let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(step as u64);
                struct Short(usize);
                impl bnf::GenerationStrategy for Short {
                    fn choose<'p>(&mut self, p: &'p bnf::Production, depth: usize) -> Option<&'p bnf::Expression> {
                        self.0 += 1;
                        if depth > 4 { None } else { p.rhs_iter().nth(self.0 % p.len().max(1)) }
                    }
                }
                let _ = gram_a.generate_seeded_with_strategy(&mut Short(step));
                let _ = &mut rng;
                let _ = gram_a.validate();
                let _ = gram_a.to_string();
            }
        }
    }
    cx.states += 1;
    cx.traces += 1;
    cx.sample(|| format!("grammars {} / {} inputs {inputs:?} operations {ops:?}", ga.0.show(), gb.0.show()));
    Ok(())
}

pub fn c06(tier: Tier) -> Vec<Stage> {
    let gs = Arc::new(c06_grammars());
    let depth = tier.pick(4, 6);
    let seqs = Seqs { radix: 8, lo: depth, hi: depth };
    let pairs: Vec<(usize, usize)> = (0..gs.len()).flat_map(|a| (0..gs.len()).map(move |b| (a, b))).collect();
    let mut out = vec![];
    {
        let (gs, pairs) = (Arc::clone(&gs), pairs.clone());
        let n = seqs.count() * pairs.len() as u64;
        out.push(stage(
            "operation-histories",
            format!("all {depth}-operation histories of 8 operations (step 4 iterators over 3 parsers, restart 2, use another parser, generate) for {} ordered pairs of grammars", pairs.len()),
            n,
            move |i, cx| {
                let p = pairs[(i % pairs.len() as u64) as usize];
                c06_history(p, &seqs.get(i / pairs.len() as u64), &gs, cx)
            },
        ));
    }
    {
        // every interleaving of the steps of three iterators over one parser and two inputs
        let gs = Arc::clone(&gs);
        let k = tier.pick(4u32, 5);
        let scheds: Arc<Vec<Vec<usize>>> = Arc::new(interleavings(&[k as usize; 3]));
        let n = scheds.len() as u64 * gs.len() as u64;
        out.push(stage(
            "interleavings",
            format!("all {} interleavings of {k} steps each of 3 iterators on one parser, {} grammars", scheds.len(), gs.len()),
            n,
            move |i, cx| {
                let (g, ins) = &gs[(i % gs.len() as u64) as usize];
                let sched = &scheds[(i / gs.len() as u64) as usize];
                let gram = g.to_bnf();
                let p = gram.build_parser().unwrap();
                let inputs = [ins[0], ins[1], ins[0]];
                let lens: Vec<usize> = inputs.iter().map(|x| safe_steps(g, x)).collect();
                let expect: Vec<Vec<Option<String>>> = (0..3)
                    .map(|k| {
                        let fresh = g.to_bnf();
                        let p = fresh.build_parser().unwrap();
                        first_trees(p.parse_input(inputs[k]), lens[k])
                    })
                    .collect();
                let mut its: Vec<_> = inputs.iter().map(|x| p.parse_input(x)).collect();
                let mut pos = [0usize; 3];
                for &k in sched {
                    if pos[k] >= lens[k] {
                        continue;
                    }
                    cx.transitions += 1;
                    let got = its[k].next().map(|t| canon(&t));
                    if got != expect[k][pos[k]] {
                        return Err(format!("grammar {} inputs {inputs:?} schedule {sched:?}: iterator {k} step {} gives {got:?}, alone {:?}", g.show(), pos[k], expect[k][pos[k]]));
                    }
                    pos[k] += 1;
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            },
        ));
    }
    {
        // repeat every parse of a universe: same parser, clone, rebuilt, after unrelated work
        let u = uni::two_nt(tier.pick(2, 3));
        out.push(stage("repeat-everything", format!("every parse repeated on the same parser, on a clone, and after other inputs; {}", u.bounds()), u.count(), move |i, cx| {
            let g = u.get(i);
            if !g.closed() {
                return Ok(());
            }
            let gram = g.to_bnf();
            let p = gram.build_parser().map_err(|e| e.to_string())?;
            let mut first: Vec<Vec<Option<String>>> = vec![];
            let steps: Vec<usize> = u.inputs.iter().map(|x| safe_steps(&g, x)).collect();
            for (x, n) in u.inputs.iter().zip(&steps) {
                first.push(first_trees(p.parse_input(x), *n));
            }
            let clone = gram.clone();
            let pc = clone.build_parser().map_err(|e| e.to_string())?;
            for k in (0..u.inputs.len()).rev() {
                let x = &u.inputs[k];
                cx.transitions += 2;
                cx.states += 1;
                let again = first_trees(p.parse_input(x), steps[k]);
                let cl = first_trees(pc.parse_input(x), steps[k]);
                if again != first[k] || cl != first[k] {
                    return Err(format!("grammar {} input {x:?}: first {:?}, repeated {again:?}, on a clone {cl:?}", g.show(), first[k]));
                }
                // the trees themselves, against the model (a state leak may poison all runs alike)
                let rec = Rec::new(&g, x);
                if rec.search_finite(g.start()) {
                    let mut memo = HashMap::new();
                    if let Some(t) = rec.trees(g.start(), 0, x.len(), C06_LEN, &mut memo) {
                        let model: HashSet<&String> = t.iter().collect();
                        let n = first[k].iter().flatten().count();
                        if (rec.accepts(g.start()) && n != t.len()) || first[k].iter().flatten().any(|c| !model.contains(c)) {
                            return Err(format!("grammar {} input {x:?}: trees {:?}, model {t:?}", g.show(), first[k]));
                        }
                    }
                }
                cx.traces += 1;
            }
            Ok(())
        }));
    }
    out.extend(same_place(tier));
    out
}

/// Inputs follow each other in one buffer, grammars in one place: what lay there before must not
/// matter.
fn same_place(tier: Tier) -> Vec<Stage> {
    use Sym::{N, T};
    let g = |tn: &[&str], prods: Vec<(usize, Vec<Vec<Sym>>)>| Rg { tn: uni::strs(tn), nn: uni::strs(&["S", "A"]), prods };
    // same shape (so the values can be edited in place), different content
    let gs: Arc<Vec<Rg>> = Arc::new(vec![
        g(&["a", "b"], vec![(0, vec![vec![T(0), N(0)], vec![N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]),
        g(&["b", "a"], vec![(0, vec![vec![T(0), N(0)], vec![N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]),
        g(&["a", "b"], vec![(0, vec![vec![N(0), T(0)], vec![N(1)]]), (1, vec![vec![T(1)], vec![T(0)]])]),
        g(&["a", "b"], vec![(0, vec![vec![N(1), N(1)], vec![N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]),
        g(&["a", "b"], vec![(1, vec![vec![T(0), N(0)], vec![T(1)]]), (0, vec![vec![T(0)], vec![N(1)]])]),
        g(&["a", "b"], vec![(0, vec![vec![N(0), N(0)], vec![N(1)]]), (1, vec![vec![T(0)], vec![T(1)]])]),
    ]);
    let words: Arc<Vec<String>> = Arc::new(uni::inputs(&["a", "b"], 3));
    let spec: Arc<Vec<Vec<Vec<Option<String>>>>> = Arc::new(
        gs.iter()
            .map(|g| {
                words
                    .iter()
                    .map(|w| {
                        let gram = g.to_bnf();
                        let p = gram.build_parser().unwrap();
                        first_trees(p.parse_input(w), C06_LEN)
                    })
                    .collect()
            })
            .collect(),
    );
    let mut out = vec![];
    {
        let (gs, words, spec) = (Arc::clone(&gs), Arc::clone(&words), Arc::clone(&spec));
        let seqs = Seqs { radix: words.len() as u64, lo: 2, hi: tier.pick(3, 4) };
        out.push(stage("one-buffer", format!("every sequence of 2..{} of {} inputs written one after the other into one buffer, {} grammars, one parser", seqs.hi, words.len(), gs.len()), seqs.count() * gs.len() as u64, move |i, cx| {
            let gi = (i % gs.len() as u64) as usize;
            let gram = gs[gi].to_bnf();
            let p = gram.build_parser().map_err(|e| e.to_string())?;
            let mut buf = String::with_capacity(64);
            let order = seqs.get(i / gs.len() as u64);
            for &w in &order {
                buf.clear();
                buf.push_str(&words[w]);
                cx.transitions += 1;
                let got = first_trees(p.parse_input(&buf), C06_LEN);
                if got != spec[gi][w] {
                    let hist: Vec<&String> = order.iter().map(|k| &words[*k]).collect();
                    return Err(format!("grammar {} inputs {hist:?} in one buffer: {:?} gives {got:?}, alone {:?}", gs[gi].show(), words[w], spec[gi][w]));
                }
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
    }
    {
        let (gs, words, spec) = (Arc::clone(&gs), Arc::clone(&words), Arc::clone(&spec));
        let seqs = Seqs { radix: gs.len() as u64, lo: 2, hi: tier.pick(4, 5) };
        let ins: Vec<usize> = (0..words.len()).filter(|k| ["a", "ab", "ba", "bb", "aab"].contains(&words[*k].as_str())).collect();
        let ni = ins.len() as u64;
        out.push(stage("one-place", format!("every sequence of 2..{} of {} grammars of one shape in one place (assigned anew, or edited term by term), {ni} inputs", seqs.hi, gs.len()), seqs.count() * ni * 2, move |mut i, cx| {
            let in_place = digit(&mut i, 2) == 1;
            let w = ins[digit(&mut i, ni) as usize];
            let order = seqs.get(i);
            let mut slot = Box::new(gs[order[0]].to_bnf());
            for (k, &gi) in order.iter().enumerate() {
                if k > 0 {
                    let next = gs[gi].to_bnf();
                    if in_place {
                        for (p, q) in slot.productions_iter_mut().zip(next.productions_iter()) {
                            p.lhs = q.lhs.clone();
                            let (a, b) = (p.len(), q.len());
                            for (e, f) in p.rhs_iter_mut().zip(q.rhs_iter()) {
                                let missing: Vec<bnf::Term> = f.terms_iter().skip(e.terms_iter().count()).cloned().collect();
                                for m in missing {
                                    e.add_term(m);
                                }
                                while e.terms_iter().count() > f.terms_iter().count() {
                                    let last = e.terms_iter().next().unwrap().clone();
                                    e.remove_term(&last);
                                }
                                for (s, t) in e.terms_iter_mut().zip(f.terms_iter()) {
                                    s.clone_from(t);
                                }
                            }
                            assert!(a == b);
                        }
                        if *slot != next {
                            return Err(format!("editing {} in place gave {}", next, *slot));
                        }
                    } else {
                        *slot = next;
                    }
                }
                cx.transitions += 1;
                let got = {
                    let p = slot.build_parser().map_err(|e| e.to_string())?;
                    let first = first_trees(p.parse_input(&words[w]), C06_LEN);
                    #[allow(deprecated)]
                    let old = first_trees(slot.parse_input(&words[w]), C06_LEN);
                    if first != old {
                        return Err(format!("grammar {} input {:?}: parser gives {first:?}, grammar-level method {old:?}", gs[gi].show(), words[w]));
                    }
                    first
                };
                if got != spec[gi][w] {
                    return Err(format!("grammars {order:?} in one place, {} input {:?}: {got:?}, alone {:?}", gs[gi].show(), words[w], spec[gi][w]));
                }
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
    }
    {
        // one parser, many parses: nothing may wear out
        let (gs, words, spec) = (Arc::clone(&gs), Arc::clone(&words), Arc::clone(&spec));
        let rounds = tier.pick(300usize, 3000);
        out.push(stage("many-parses", format!("{rounds} rounds of all {} inputs on one parser, half of the iterators abandoned", words.len()), gs.len() as u64, move |i, cx| {
            let gi = i as usize;
            let gram = gs[gi].to_bnf();
            let p = gram.build_parser().map_err(|e| e.to_string())?;
            for r in 0..rounds {
                for w in 0..words.len() {
                    let n = if (r + w) % 2 == 0 { C06_LEN } else { 1 };
                    cx.transitions += 1;
                    let got = first_trees(p.parse_input(&words[w]), n);
                    if got != spec[gi][w][..n] {
                        return Err(format!("grammar {} input {:?}, parse {} on one parser: {got:?}, alone {:?}", gs[gi].show(), words[w], r * words.len() + w, spec[gi][w]));
                    }
                }
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
    }
    out.push(starts_in_turn(tier));
    out.extend(orders_of_grammars());
    out.push(crowds(tier));
    out.push(long_repeats(tier));
    out
}

pub fn interleavings(counts: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for k in 0..left.len() {
            if left[k] > 0 {
                left[k] -= 1;
                cur.push(k);
                rec(left, cur, out);
                cur.pop();
                left[k] += 1;
            }
        }
    }
    rec(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}

// ---------------------------------------------------------------- spellings and sizes for C05, C06

fn confusable_starts() -> Stage {
    use Sym::{N, T};
    let words = crate::odd::confusable();
    let k = words.len() as u64;
    stage("confusable-starts", format!("all pairs of {k} easily confused names as first and second symbol, or one of them undefined"), k * k, move |mut i, cx| {
        let (a, b) = (words[digit(&mut i, k) as usize].clone(), words[digit(&mut i, k) as usize].clone());
        if a == b {
            return Ok(());
        }
        let nn = vec![a, b];
        let both = Rg { tn: uni::strs(&["1", "2"]), nn: nn.clone(), prods: vec![(0, vec![vec![T(0)], vec![N(1), T(0)]]), (1, vec![vec![T(1)]])] };
        let one = Rg { tn: uni::strs(&["1", "2"]), nn: nn.clone(), prods: vec![(0, vec![vec![T(0)], vec![N(1), T(0)]])] };
        let alone = Rg { tn: uni::strs(&["1", "2"]), nn, prods: vec![(0, vec![vec![T(0)], vec![N(0), T(1)]])] };
        for g in [both, one, alone] {
            start_case(&g, &uni::strs(&["1", "21", "2", "12"]), cx)?;
        }
        Ok(())
    })
}

#[allow(deprecated)]
fn huge_starts(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-grammars", format!("{} numbers of symbols up to {}: five of them requested, the default, the deprecated methods", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 2, move |mut i, cx| {
        let kind = digit(&mut i, 2);
        let n = ns[i as usize];
        let nt = |k: usize| bnf::Term::Nonterminal(format!("n{k}"));
        let te = |s: String| bnf::Term::Terminal(s);
        let one = |l: bnf::Term, e: Vec<bnf::Term>| bnf::Production::from_parts(l, vec![bnf::Expression::from_parts(e)]);
        // kind 0: n symbols of one production; kind 1: two symbols, n productions, alternating
        let gram = bnf::Grammar::from_parts((0..n).map(|k| one(nt(if kind == 0 { k } else { k % 2 }), vec![te(format!("{k}."))])).collect());
        let parser = gram.build_parser().map_err(|e| e.to_string())?;
        for k in [0, 1, n / 2, n - 2, n - 1] {
            for s in [0, 1, n / 2, n - 1] {
                let input = format!("{k}.");
                let want = if kind == 0 { k == s } else { s < 2 && k % 2 == s };
                let start = nt(s);
                let new = drain(parser.parse_input_starting_with(&input, &start).map(|t| canon(&t)), 3);
                let old = drain(gram.parse_input_starting_with(&input, &start).map(|t| canon(&t)), 3);
                cx.states += 1;
                cx.transitions += 2;
                if new.len() != usize::from(want) || new != old {
                    return Err(format!("{n} productions (kind {kind}), start n{s}, input {input:?}: {new:?}, deprecated {old:?}, expected {} tree(s)", usize::from(want)));
                }
            }
            let input = format!("{k}.");
            let want = if kind == 0 { k == 0 } else { k % 2 == 0 };
            let new = drain(parser.parse_input(&input).map(|t| canon(&t)), 3);
            let old = drain(gram.parse_input(&input).map(|t| canon(&t)), 3);
            cx.transitions += 2;
            if new.len() != usize::from(want) || new != old {
                return Err(format!("{n} productions (kind {kind}), default start, input {input:?}: {new:?}, deprecated {old:?}, expected {} tree(s)", usize::from(want)));
            }
        }
        cx.traces += 1;
        Ok(())
    })
    .soft()
}

/// Many iterators of one parser alive at once, stepped in turn; many parsers alive at once.
fn crowds(tier: Tier) -> Stage {
    let ns: Vec<usize> = vec![10, 100, 255, 256, 257, 1000, 1025, tier.pick(5000, 20_000)];
    let gs = c06_grammars();
    let k = gs.len() as u64;
    stage("crowds", format!("{} numbers of iterators and parsers up to {} alive at once, stepped in turn, {k} grammars", ns.len(), ns[ns.len() - 1]), ns.len() as u64 * k, move |mut i, cx| {
        let (g, inputs) = &gs[digit(&mut i, k) as usize];
        let n = ns[i as usize];
        let gram = g.to_bnf();
        let other: bnf::Grammar = "<S> ::= 'a' | 'b' | <S> 'c'".parse().map_err(|e: bnf::Error| e.to_string())?;
        let steps: Vec<usize> = inputs.iter().map(|w| safe_steps(g, w).min(3)).collect();
        let spec: Vec<Vec<Option<String>>> = inputs.iter().zip(&steps).map(|(w, s)| first_trees(gram.build_parser().unwrap().parse_input(w), *s)).collect();
        let parser = gram.build_parser().map_err(|e| e.to_string())?;
        let mut live: Vec<_> = (0..n).map(|j| parser.parse_input(inputs[j % 2])).collect();
        let parsers: Vec<_> = (0..n).map(|j| if j % 3 == 2 { other.build_parser() } else { gram.build_parser() }).collect();
        for s in 0..3 {
            for (j, it) in live.iter_mut().enumerate() {
                if s >= steps[j % 2] {
                    continue;
                }
                let got = it.next().map(|t| canon(&t));
                cx.transitions += 1;
                if got != spec[j % 2][s] {
                    return Err(format!("grammar {}: iterator {j} of {n}, step {s}, input {:?}: {got:?}, alone {:?}", g.show(), inputs[j % 2], spec[j % 2][s]));
                }
            }
        }
        for (j, p) in parsers.iter().enumerate().filter(|(j, _)| j % 3 != 2) {
            let p = p.as_ref().map_err(|e| e.to_string())?;
            let w = j % 2;
            let got = first_trees(p.parse_input(inputs[w]), steps[w]);
            cx.transitions += 1;
            if got != spec[w] {
                return Err(format!("grammar {}: parser {j} of {n}, input {:?}: {got:?}, alone {:?}", g.show(), inputs[w], spec[w]));
            }
        }
        cx.states += 1;
        cx.traces += 1;
        Ok(())
    })
    .soft()
}

/// Long inputs parsed again and again, between short ones and on other parsers.
fn long_repeats(tier: Tier) -> Stage {
    let ns: Vec<usize> = huge(tier).into_iter().filter(|n| *n <= tier.pick(20_000, 70_000)).collect();
    stage("long-repeats", format!("{} lengths up to {}: parsed twice, after the same input with its last, first or middle letter changed, after a prefix, on a second parser", ns.len(), ns.iter().max().unwrap()), ns.len() as u64, move |i, cx| {
        let n = ns[i as usize];
        // blocks, so that the trees stay shallow
        let gram: bnf::Grammar = "<S> ::= <B> <B> | <B> | <S> 'z'\n<B> ::= 'blockblock' | 'a' | 'b'".parse().map_err(|e: bnf::Error| e.to_string())?;
        let big = "x".repeat(n);
        let mut gram2 = gram.clone();
        for v in ["a", "b", "c"] {
            gram2.add_production(bnf::Production::from_parts(bnf::Term::Nonterminal("B".into()), vec![bnf::Expression::from_parts(vec![bnf::Term::Terminal(format!("{big}{v}"))]), bnf::Expression::from_parts(vec![bnf::Term::Terminal(format!("{v}{big}"))])]));
        }
        let inputs: Vec<String> = ["a", "b", "c", "d"].iter().flat_map(|v| [format!("{big}{v}"), format!("{v}{big}"), format!("{big}{v}{v}{big}"), format!("{big}{v}z")]).chain([big.clone(), String::new(), "a".into(), "blockblockb".into()]).collect();
        let brief = |ts: Vec<Option<String>>| -> Vec<Option<String>> { ts.into_iter().map(|t| t.map(|t| t.replace(&big, "X"))).collect() };
        // expected: on a parser of its own each
        let spec: Vec<Vec<Option<String>>> = inputs.iter().map(|w| brief(first_trees(gram2.build_parser().unwrap().parse_input(w), 4))).collect();
        for (w, s) in inputs.iter().zip(&spec) {
            let ok = |p: &str| p.strip_suffix('z').unwrap_or(p).to_string();
            let v = ok(w);
            let b = |p: &str| p == "a" || p == "b" || p == "blockblock" || ["a", "b", "c"].iter().any(|v| p == format!("{big}{v}") || p == format!("{v}{big}"));
            let derives = b(&v) || (1..v.len()).filter(|k| v.is_char_boundary(*k) && (*k < 12 || v.len() - k < 12 || *k == n + 1 || *k == n)).any(|k| b(&v[..k]) && b(&v[k..]));
            if s[0].is_some() != derives {
                return Err(format!("size {n}: {:?}.. gives {s:?}", w.chars().take(20).collect::<String>()));
            }
        }
        let one = gram2.build_parser().map_err(|e| e.to_string())?;
        for a in 0..inputs.len() {
            for b in 0..inputs.len() {
                for w in [a, b, a] {
                    let got = brief(first_trees(one.parse_input(&inputs[w]), 4));
                    cx.transitions += 1;
                    if got != spec[w] {
                        return Err(format!("size {n}: input {w} after {a}, {b}: {got:?}, alone {:?}", spec[w]));
                    }
                }
            }
        }
        cx.states += 1;
        cx.traces += 1;
        Ok(())
    })
    .soft()
}

/// One parser, changing start symbols and inputs.
fn starts_in_turn(tier: Tier) -> Stage {
    use Sym::{N, T};
    let g = |prods: Vec<(usize, Vec<Vec<Sym>>)>| Rg { tn: uni::strs(&["a", "b"]), nn: uni::strs(&["S", "A"]), prods };
    let gs = Arc::new(vec![
        g(vec![(0, vec![vec![T(0), N(0)], vec![N(1)]]), (1, vec![vec![T(1)], vec![T(0)]])]),
        g(vec![(0, vec![vec![N(1), T(1)]]), (1, vec![vec![T(0)], vec![N(1), T(0)]])]),
        g(vec![(0, vec![vec![N(0), N(0)], vec![T(0)], vec![N(1)]]), (1, vec![vec![T(1)], vec![N(1), N(1)]])]),
        g(vec![(1, vec![vec![T(0)], vec![]]), (0, vec![vec![N(1), N(1), T(1)]])]),
    ]);
    let words = Arc::new(uni::inputs(&["a", "b"], 2));
    // None: parse_input; Some(k): that start symbol (2 is undefined)
    let starts: [Option<usize>; 4] = [None, Some(0), Some(1), Some(2)];
    let kinds = words.len() * starts.len();
    let seqs = Seqs { radix: kinds as u64, lo: 2, hi: tier.pick(3, 4) };
    stage("starts-in-turn", format!("every sequence of 2..{} of {kinds} (start symbol, input) pairs on one parser, {} grammars, iterators run to the end or dropped after one tree", seqs.hi, gs.len()), seqs.count() * gs.len() as u64, move |mut i, cx| {
        let g = &gs[digit(&mut i, gs.len() as u64) as usize];
        let ops = seqs.get(i);
        let terms = [bnf::Term::Nonterminal("S".into()), bnf::Term::Nonterminal("A".into()), bnf::Term::Nonterminal("U".into())];
        let go = |p: &bnf::GrammarParser<'_>, op: usize, n: usize, terms: &'_ [bnf::Term; 3]| -> Vec<Option<String>> {
            // (the start term has to live as long as the grammar)
            let terms: &'static [bnf::Term; 3] = unsafe { &*std::ptr::from_ref(terms) };
            let w = &words[op / starts.len()];
            match starts[op % starts.len()] {
                None => first_trees(p.parse_input(w), n),
                Some(k) => first_trees(p.parse_input_starting_with(w, &terms[k]), n),
            }
        };
        let gram = g.to_bnf();
        let one = gram.build_parser().map_err(|e| e.to_string())?;
        for (k, op) in ops.iter().enumerate() {
            let n = if k + 1 == ops.len() || (i + k as u64) % 2 == 0 { C06_LEN } else { 1 };
            let fresh = gram.build_parser().map_err(|e| e.to_string())?;
            let (got, want) = (go(&one, *op, n, &terms), go(&fresh, *op, n, &terms));
            cx.transitions += 1;
            if got != want {
                return Err(format!("grammar {}: {:?} from {:?} after {:?}: {got:?}, on a fresh parser {want:?}", g.show(), words[op / 4], starts[op % 4], &ops[..k]));
            }
        }
        cx.states += 1;
        cx.traces += 1;
        Ok(())
    })
}

/// Grammars that look alike from afar: the same symbols, the same number of alternatives of the
/// same lengths in another order, all of them spelling "aaaa" (and so showing their order).
fn lookalikes() -> Vec<bnf::Grammar> {
    let parts: [&[usize]; 8] = [&[4], &[3, 1], &[1, 3], &[2, 2], &[2, 1, 1], &[1, 2, 1], &[1, 1, 2], &[1, 1, 1, 1]];
    let t = |n: usize| bnf::Term::Terminal("a".repeat(n));
    let nt = |s: &str| bnf::Term::Nonterminal(s.into());
    let mut out = vec![];
    for m in 2..=8usize {
        for r in 0..8usize {
            let mut alts: Vec<bnf::Expression> = (0..m).map(|k| bnf::Expression::from_parts(parts[(k + r) % 8].iter().map(|n| t(*n)).collect())).collect();
            match r % 3 {
                0 => out.push(bnf::Grammar::from_parts(vec![bnf::Production::from_parts(nt("S"), alts)])),
                1 => {
                    let tail = alts.split_off(m / 2);
                    out.push(bnf::Grammar::from_parts(vec![bnf::Production::from_parts(nt("S"), alts), bnf::Production::from_parts(nt("S"), tail)]));
                }
                _ => {
                    // the last ones through another symbol
                    let tail = alts.split_off(m / 2);
                    alts.push(bnf::Expression::from_parts(vec![nt("A")]));
                    out.push(bnf::Grammar::from_parts(vec![bnf::Production::from_parts(nt("S"), alts), bnf::Production::from_parts(nt("A"), tail)]));
                }
            }
            // the same lengths, through a symbol that may be empty: many trees, in an order of their own
            let l = |n: usize| bnf::Expression::from_parts(vec![nt("A"); n]);
            let alts: Vec<bnf::Expression> = (0..m).map(|k| l((k * 3 + r) % 5)).collect();
            let e = |v: Vec<bnf::Term>| bnf::Expression::from_parts(v);
            let a = if r % 2 == 0 { vec![e(vec![t(1)]), e(vec![t(1), t(1)]), e(vec![t(0)])] } else { vec![e(vec![]), e(vec![t(2)]), e(vec![t(1)])] };
            out.push(bnf::Grammar::from_parts(vec![bnf::Production::from_parts(nt("S"), alts), bnf::Production::from_parts(nt("A"), a)]));
        }
    }
    out
}

/// What the grammars with these numbers give, in this order.
pub fn parse_digest(order: &[usize]) -> Vec<String> {
    let gs = lookalikes();
    order
        .iter()
        .map(|k| {
            let p = gs[*k].build_parser().unwrap();
            let mut s = String::new();
            for w in ["aaaa", "aaa", "aa"] {
                s.push_str(&format!("{:?};", first_trees(p.parse_input(w), 10)));
            }
            s
        })
        .collect()
}

fn orders_of_grammars() -> Vec<Stage> {
    let n = lookalikes().len() as u64;
    let child = |order: &[usize]| -> Result<Vec<String>, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(exe).arg("digest-parse").args(order.iter().map(|k| k.to_string())).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("process parsing grammars {order:?} ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        Ok(String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect())
    };
    vec![
        stage("other-processes", format!("{n} grammars that look alike: each alone in a process, and first of all {n} (and last of all) in a process"), n, move |i, cx| {
            let k = i as usize;
            let alone = child(&[k])?;
            let order: Vec<usize> = (0..n as usize).map(|j| (k + j) % n as usize).collect();
            let first = child(&order)?;
            let mut back = order.clone();
            back.reverse();
            let last = child(&back)?;
            cx.states += 3;
            cx.transitions += 2 * n + 1;
            cx.traces += 3;
            if alone.len() != 1 || first.first() != alone.first() || last.last() != alone.last() {
                return Err(format!("grammar {}: alone {alone:?}, before the others {:?}, after them {:?}", lookalikes()[k], first.first(), last.last()));
            }
            Ok(())
        }),
        stage("one-after-another", format!("all ordered pairs of {n} grammars that look alike, on a thread of their own: the second as if alone"), n * n, move |mut i, cx| {
            let a = digit(&mut i, n) as usize;
            let b = i as usize;
            let run = |order: Vec<usize>| std::thread::spawn(move || parse_digest(&order)).join().map_err(|_| "panicked".to_string());
            let alone = run(vec![b])?;
            let both = run(vec![a, b])?;
            cx.states += 1;
            cx.transitions += 3;
            cx.traces += 1;
            if alone[0] != both[1] {
                let gs = lookalikes();
                return Err(format!("grammar {} after {}: {}, alone {}", gs[b], gs[a], both[1], alone[0]));
            }
            Ok(())
        }),
    ]
}
