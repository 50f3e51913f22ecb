//! C01-C04 beyond the small universes: spellings that are easily confused, inputs of tens and
//! hundreds of thousands of bytes, and searches with tens of thousands of trees. Expected results
//! are known in closed form or come from the reference recogniser.
use crate::odd::confusable;
use crate::parse::{Want, grammar_case};
use crate::refg::*;
use crate::run::*;
use crate::uni::strs;
use Sym::{N, T};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub fn confusables(want: Want) -> Stage {
    let words = Arc::new(confusable());
    let k = words.len() as u64;
    let shapes = 7u64;
    stage(
        "confusable-spellings",
        format!("all pairs (terminal, input) of {k} spellings that fold, trim, normalise or unescape to one another x {shapes} grammar shapes"),
        k * k * shapes,
        move |mut i, cx| {
            let t = words[digit(&mut i, k) as usize].as_str();
            let w = words[digit(&mut i, k) as usize].as_str();
            let one = |tn: &[&str], alts: Vec<Vec<Sym>>| Rg { tn: strs(tn), nn: strs(&["S"]), prods: vec![(0, alts)] };
            let (g, inputs): (Rg, Vec<String>) = match i {
                0 => (one(&[t], vec![vec![T(0)]]), vec![w.into(), format!("{w}{w}")]),
                1 => (one(&[t, "|"], vec![vec![T(0), T(1)]]), vec![format!("{w}|"), w.into()]),
                2 => (one(&[t, "|"], vec![vec![T(1), T(0)]]), vec![format!("|{w}"), w.into()]),
                3 => (one(&[t, "|"], vec![vec![T(0)], vec![T(1)], vec![]]), vec![w.into()]),
                4 => (one(&[t], vec![vec![N(0), T(0)], vec![]]), vec![w.into(), format!("{t}{w}"), format!("{w}{t}")]),
                5 => {
                    // both spellings side by side: each input takes its own alternative
                    if t == w {
                        return Ok(());
                    }
                    (one(&[t, w, "|"], vec![vec![T(2), T(0)], vec![T(1), T(2)]]), vec![format!("|{w}"), format!("{t}|"), format!("|{t}"), format!("{w}|")])
                }
                _ => {
                    // the spelling is a nonterminal's name, the other one is the only name defined
                    // (when they are the same name the grammar is just a longer one)
                    let g = Rg { tn: strs(&["x", w]), nn: strs(&[t]), prods: vec![(0, vec![vec![T(0)], vec![T(1), N(0)]])] };
                    if w.is_empty() {
                        return Ok(());
                    }
                    (g, vec!["x".into(), format!("{w}x"), w.into(), format!("{t}x"), t.into(), format!("{w}{w}x")])
                }
            };
            grammar_case(want, &g, &inputs, cx)
        },
    )
}

/// Names that are easily confused, all defined in one grammar: each keeps its own meaning.
pub fn confusable_names(want: Want) -> Stage {
    let words = Arc::new(confusable());
    let k = words.len() as u64;
    stage(
        "confusable-names",
        format!("all pairs of different nonterminal names out of {k} easily confused spellings"),
        k * k,
        move |mut i, cx| {
            let a = words[digit(&mut i, k) as usize].clone();
            let b = words[digit(&mut i, k) as usize].clone();
            if a == b {
                return Ok(());
            }
            let g = Rg {
                tn: strs(&["1", "2"]),
                nn: vec![a, b],
                prods: vec![(0, vec![vec![N(1), T(0)], vec![T(0), T(0)]]), (1, vec![vec![T(1)]])],
            };
            grammar_case(want, &g, &strs(&["21", "11", "2", "1", "22", "12", "111"]), cx)
        },
    )
}

/// A terminal against every single edit of itself.
pub fn near_misses(want: Want, tier: Tier) -> Stage {
    let base: String = "abcdefghijklmnopqrstuvwxyz0123456789 ABCDEFGHIJKLMNOPQRSTUVWXYZ\t.,:-éß😀".repeat(8);
    let mut cases: Vec<(String, String)> = vec![];
    for len in tier.pick(vec![1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 257], (1..140).chain([255, 256, 257, 300]).collect()) {
        let t: Vec<char> = base.chars().take(len).collect();
        let text: String = t.iter().collect();
        cases.push((text.clone(), text.clone()));
        for at in 0..len {
            let mut put = |f: &dyn Fn(&mut Vec<char>)| {
                let mut e = t.clone();
                f(&mut e);
                cases.push((text.clone(), e.into_iter().collect()));
            };
            put(&|e| e[at] = '#');
            put(&|e| {
                e.remove(at);
            });
            put(&|e| e.insert(at, ' '));
            put(&|e| e[at] = if e[at].is_lowercase() { e[at].to_ascii_uppercase() } else { e[at].to_ascii_lowercase() });
            if at + 1 < len {
                put(&|e| e.swap(at, at + 1));
            }
        }
        for tail in ["\n", "\r\n", " ", "\0", "\u{feff}", "a", "é"] {
            cases.push((text.clone(), format!("{text}{tail}")));
            cases.push((text.clone(), format!("{tail}{text}")));
        }
    }
    let n = cases.len() as u64;
    stage("near-misses", format!("{n} (terminal, input) pairs: terminals of up to 300 characters against every single edit"), n, move |i, cx| {
        let (t, w) = &cases[i as usize];
        let one = |alts: Vec<Vec<Sym>>, tn: Vec<String>| Rg { tn, nn: strs(&["S"]), prods: vec![(0, alts)] };
        let ok = t == w;
        closed(want, &one(vec![vec![T(0)]], vec![t.clone()]), w, ok as u64, cx)?;
        let split: Vec<String> = t.chars().map(String::from).collect();
        if split.len() <= 64 {
            // the same word as a sequence of one-letter terminals
            let idx: Vec<Sym> = (0..split.len()).map(T).collect();
            closed(want, &one(vec![idx], split), w, ok as u64, cx)?;
        }
        if t.len() > 8 {
            // and cut in the middle
            let cut = t.char_indices().nth(t.chars().count() / 2).unwrap().0;
            closed(want, &one(vec![vec![T(0), T(1)]], strs(&[&t[..cut], &t[cut..]])), w, ok as u64, cx)?;
        }
        Ok(())
    })
}

/// Closed form: the input has exactly `trees` trees (all of them are checked when few).
fn closed(want: Want, g: &Rg, input: &str, trees: u64, cx: &mut Cx) -> Res {
    closed_all(want, g, &[(input.to_string(), trees)], cx)
}

fn closed_all(want: Want, g: &Rg, inputs: &[(String, u64)], cx: &mut Cx) -> Res {
    let gram = g.to_bnf();
    let parser = gram.build_parser().map_err(|e| format!("build_parser failed: {e}"))?;
    inputs.iter().try_for_each(|(input, trees)| closed_on(want, g, &parser, input, *trees, cx))
}

fn closed_on(want: Want, g: &Rg, parser: &bnf::GrammarParser, input: &str, trees: u64, cx: &mut Cx) -> Res {
    let short = |s: &str| -> String {
        if s.len() <= 80 { format!("{s:?}") } else { format!("{:?}.. ({} bytes)", s.chars().take(40).collect::<String>(), s.len()) }
    };
    let ctx = |m: String| {
        let s = g.show();
        format!("grammar {} input {}: {m}", short(&s), short(input))
    };
    cx.states += 1;
    let mut it = parser.parse_input(input);
    let mut got = 0u64;
    let cap = match want {
        Want::Accept => 1,
        Want::Sound => 8,
        _ => trees + 1,
    };
    let mut seen: HashSet<u64> = HashSet::new();
    while got < cap {
        cx.transitions += 1;
        let Some(t) = it.next() else { break };
        got += 1;
        if want == Want::Sound {
            check_tree(g, g.start(), input, &t).map_err(|e| ctx(e.chars().take(200).collect()))?;
        }
        if want == Want::ExactlyOnce && !seen.insert(shape_hash(&t)) {
            return Err(ctx(format!("a tree came twice (the {got}th)")));
        }
    }
    let bad = match want {
        Want::Accept => (got > 0) != (trees > 0),
        Want::Sound => got > 0 && trees == 0,
        _ => got != trees,
    };
    if bad {
        return Err(ctx(format!("{got} trees{}, derivations: {trees}", if got == cap { " or more" } else { "" })));
    }
    cx.traces += 1;
    Ok(())
}

/// A 64-bit digest of a tree (FNV over its pre-order walk).
fn shape_hash(t: &bnf::ParseTree) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    };
    fn walk(t: &bnf::ParseTree, eat: &mut dyn FnMut(&[u8])) {
        eat(b"(");
        match t.lhs {
            bnf::Term::Nonterminal(n) => eat(n.as_bytes()),
            bnf::Term::Terminal(n) => {
                eat(b"!");
                eat(n.as_bytes())
            }
        }
        for c in t.rhs_iter() {
            match c {
                bnf::ParseTreeNode::Terminal(x) => {
                    eat(b"'");
                    if x.len() < 64 { eat(x.as_bytes()) } else { eat(&x.len().to_le_bytes()) }
                }
                bnf::ParseTreeNode::Nonterminal(p) => walk(p, eat),
            }
        }
        eat(b")");
    }
    walk(t, &mut eat);
    h
}

/// Offsets far beyond what the letters of a test reach: one block terminal moves the offset by
/// tens of thousands of bytes, small choices happen before and after it.
pub fn huge_inputs(want: Want, tier: Tier) -> Stage {
    let mut ks: Vec<usize> = vec![];
    for b in [1usize << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 100_000, 1 << 20] {
        ks.extend(b - 3..=b + 2);
    }
    if tier == Tier::Thorough {
        for b in [1usize << 13, 1 << 14, 1 << 18, 200_000, 1_000_000, 1 << 24] {
            ks.extend(b - 3..=b + 2);
        }
    }
    let n = ks.len() as u64;
    stage("huge-inputs", format!("blocks of {} sizes up to {} bytes between small choices, about 40 inputs each", ks.len(), ks.iter().max().unwrap()), n, move |i, cx| {
        let k = ks[i as usize];
        let big = "c".repeat(k);
        let one = |tn: &[&str], nn: &[&str], prods: Vec<(usize, Vec<Vec<Sym>>)>| Rg { tn: strs(tn), nn: strs(nn), prods };
        // S = T big T; T = '' | 'b'
        let g = one(&["b", &big], &["S", "T"], vec![(0, vec![vec![N(1), T(1), N(1)]]), (1, vec![vec![], vec![T(0)]])]);
        for (pre, post, trees) in [("", "", 1), ("b", "", 1), ("", "b", 1), ("b", "b", 1), ("bb", "", 0), ("", "bb", 0), ("c", "", 0), ("", "c", 0), ("b", "c", 0)] {
            closed(want, &g, &format!("{pre}{big}{post}"), trees, cx)?;
        }
        // S = P big Q; what may follow depends on the offset having been kept apart from the start
        let g = one(
            &["x", "y", "xy", &big],
            &["S", "P", "Q"],
            vec![(0, vec![vec![N(1), T(3), N(2)]]), (1, vec![vec![T(0)], vec![T(2)], vec![T(0), T(1)]]), (2, vec![vec![T(1)], vec![T(1), T(0)], vec![T(0)]])],
        );
        for (pre, p) in [("x", 1), ("xy", 2), ("y", 0), ("", 0), ("yx", 0)] {
            for (post, q) in [("y", 1), ("yx", 1), ("x", 1), ("", 0), ("xy", 0), ("yy", 0)] {
                closed(want, &g, &format!("{pre}{big}{post}"), p * q, cx)?;
            }
        }
        // left recursion over blocks
        if k <= 1 << 18 {
            let g = one(&[&big, "d"], &["S"], vec![(0, vec![vec![N(0), T(0)], vec![N(0), T(1)], vec![]])]);
            for m in 0..4usize {
                closed(want, &g, &big.repeat(m), 1, cx)?;
                closed(want, &g, &format!("{}d{big}d", big.repeat(m)), 1, cx)?;
                if m > 0 {
                    closed(want, &g, &format!("{}c", big.repeat(m)), 0, cx)?;
                }
            }
            // ambiguity behind the block: S = big A; A = A A | 'a'
            let g = one(&["a", &big], &["S", "A"], vec![(0, vec![vec![T(1), N(1)]]), (1, vec![vec![N(1), N(1)], vec![T(0)]])]);
            for (m, c) in [(1, 1), (2, 1), (3, 2), (4, 5), (5, 14), (6, 42)] {
                closed(want, &g, &format!("{big}{}", "a".repeat(m)), c, cx)?;
            }
        }
        cx.sample(|| format!("block of {k} bytes"));
        Ok(())
    })
    .soft()
}

/// Far more alternatives, productions or symbols than ordinary: every word has the one derivation.
pub fn huge_grammars(want: Want, tier: Tier) -> Stage {
    let mut ks: Vec<usize> = vec![127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70_000];
    if tier == Tier::Thorough {
        ks.extend([131_071, 131_073, 200_000, 262_145]);
    }
    stage("huge-grammars", format!("{} sizes up to {}: alternatives, productions of one symbol or symbols; words of rules at about 10 places", ks.len(), ks.iter().max().unwrap()), ks.len() as u64 * 3, move |i, cx| {
        let k = ks[(i / 3) as usize];
        let mut tn: Vec<String> = (0..k).map(|i| format!("w{i};")).collect();
        tn.push("!".into());
        let places: std::collections::BTreeSet<usize> = [0, 1, 2, k / 2, k.wrapping_sub(256), k.wrapping_sub(65536), 255, 256, 65535, 65536, k - 2, k - 1].into_iter().filter(|p| *p < k).collect();
        let (nn, prods): (Vec<String>, Vec<(usize, Vec<Vec<Sym>>)>) = match i % 3 {
            0 => (strs(&["S", "A"]), vec![(0, vec![vec![N(1), T(k)]]), (1, (0..k).map(|i| vec![T(i)]).collect())]),
            1 => (strs(&["S", "A"]), (0..k).map(|i| (1, vec![vec![T(i)]])).chain([(0, vec![vec![N(1), T(k)]])]).collect::<Vec<_>>()),
            _ => {
                let mut nn = vec!["S".to_string()];
                nn.extend((0..k).map(|i| format!("n{i}")));
                let mut prods = vec![(0, places.iter().map(|p| vec![N(p + 1), T(k)]).collect::<Vec<_>>())];
                prods.extend((0..k).map(|i| (i + 1, vec![vec![T(i)]])));
                (nn, prods)
            }
        };
        let mut g = Rg { tn, nn, prods };
        if i % 3 == 1 {
            let last = g.prods.pop().expect("the rule of S");
            g.prods.insert(0, last);
        }
        let mut words: Vec<(String, u64)> = places.iter().map(|p| (format!("w{p};!"), 1)).collect();
        words.push((format!("w{k};!"), 0));
        words.push(("w1;".into(), 0));
        closed_all(want, &g, &words, cx)
    })
    .soft()
}

/// Tens of thousands of trees for one input, each exactly once.
pub fn many_trees(want: Want, tier: Tier) -> Stage {
    let mut cases: Vec<(String, Rg, String, u64)> = vec![];
    let lim: u64 = tier.pick(140_000, 1_100_000);
    for base in [2u64, 3, 10, 17, 101] {
        let mut k = 1u32;
        while base.pow(k) <= lim {
            // S = B1..Bk; every Bi has `base` ways to derive 'x', each through a symbol of its own
            let kk = k as usize;
            let b = base as usize;
            let mut nn = vec!["S".to_string()];
            nn.extend((0..kk).map(|i| format!("b{i}")));
            nn.extend((0..b).map(|i| format!("w{i}")));
            let mut prods = vec![(0, vec![(1..=kk).map(N).collect::<Vec<_>>()])];
            prods.extend((1..=kk).map(|i| (i, (0..b).map(|j| vec![N(1 + kk + j)]).collect())));
            prods.extend((0..b).map(|j| (1 + kk + j, vec![vec![T(0)]])));
            if base.pow(k) > 500 {
                cases.push((format!("{k} independent {base}-way choices"), Rg { tn: strs(&["x"]), nn, prods }, "x".repeat(kk), base.pow(k)));
            }
            k += 1;
        }
    }
    let mut cat: Vec<u64> = vec![1, 1];
    for n in 2..=tier.pick(12usize, 14) {
        cat.push((0..n).map(|i| cat[i] * cat[n - 1 - i]).sum());
    }
    for n in 7..cat.len() {
        // n+1 letters have cat(n) trees
        let g = Rg { tn: strs(&["a"]), nn: strs(&["S"]), prods: vec![(0, vec![vec![N(0), N(0)], vec![T(0)]])] };
        cases.push((format!("binary trees over {} letters", n + 1), g, "a".repeat(n + 1), cat[n]));
    }
    for n in tier.pick(vec![100u64, 256, 300, 1000, 1024], vec![255, 256, 257, 1000, 1023, 1024, 1025, 5000]) {
        // one choice with n ways, twice: the split of a^n, then in each part alternatives
        let g = Rg { tn: strs(&["a"]), nn: strs(&["S", "A"]), prods: vec![(0, vec![vec![N(1), N(1)]]), (1, vec![vec![N(1), T(0)], vec![T(0)]])] };
        if n <= 1100 {
            cases.push((format!("{} ways to cut {n} letters", n - 1), g, "a".repeat(n as usize), n - 1));
        }
        let mut nn = vec!["S".to_string()];
        nn.extend((0..n).map(|i| format!("w{i}")));
        let mut prods = vec![(0, (1..=n as usize).map(|j| vec![N(j)]).collect::<Vec<_>>())];
        prods.extend((1..=n as usize).map(|j| (j, vec![vec![T(0)]])));
        cases.push((format!("{n} ways, one choice"), Rg { tn: strs(&["x"]), nn, prods }, "x".into(), n));
    }
    cases.sort_by_key(|c| c.3);
    let n = cases.len() as u64;
    stage("many-trees", format!("{n} inputs with 500 to {} trees in closed form", cases[cases.len() - 1].3), n, move |i, cx| {
        let (what, g, input, trees) = &cases[i as usize];
        closed(want, g, input, *trees, cx).map_err(|e| format!("[{what}] {e}"))?;
        cx.sample(|| what.clone());
        Ok(())
    })
    .soft()
}

/// Infinitely ambiguous inputs followed for hundreds of thousands of trees: never ends, never
/// repeats, every tree derives the input, and the trees with few rounds are among them.
pub fn wide_streams(tier: Tier) -> Stage {
    let take: usize = tier.pick(150_000, 600_000);
    let mut cases: Vec<(String, Rg, String, usize, usize)> = vec![];
    for (w, must) in [(2usize, 6usize), (3, 5), (10, 3), (30, 2)] {
        for side in 0..2 {
            let mut nn = strs(&["S", "E"]);
            nn.extend((0..w).map(|i| format!("e{i}")));
            let rec = if side == 0 { vec![N(0), N(1)] } else { vec![N(1), N(0)] };
            let mut prods = vec![(0, vec![rec, vec![T(0)]]), (1, (0..w).map(|i| vec![N(2 + i)]).collect())];
            prods.extend((0..w).map(|i| (2 + i, vec![vec![]])));
            cases.push((format!("{w}-way empty symbol on side {side}"), Rg { tn: strs(&["a"]), nn, prods }, "a".into(), w, must));
        }
        // w unit cycles through different symbols
        let mut nn = strs(&["S"]);
        nn.extend((0..w).map(|i| format!("u{i}")));
        let mut alts: Vec<Vec<Sym>> = (0..w).map(|i| vec![N(1 + i)]).collect();
        alts.push(vec![T(0)]);
        let mut prods = vec![(0, alts)];
        prods.extend((0..w).map(|i| (1 + i, vec![vec![N(0)]])));
        cases.push((format!("{w} unit cycles"), Rg { tn: strs(&["a"]), nn, prods }, "a".into(), w, must));
    }
    let n = cases.len() as u64;
    stage("wide-streams", format!("{n} cyclic grammars with w^r trees of r rounds (w = 2, 3, 10, 30): the first {take} trees; all trees of up to 6, 5, 3, 2 rounds are among them"), n, move |i, cx| {
        let (what, g, input, w, must) = &cases[i as usize];
        let gram = g.to_bnf();
        let parser = gram.build_parser().map_err(|e| format!("[{what}] build_parser failed: {e}"))?;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut by_rounds: HashMap<usize, usize> = HashMap::new();
        let nodes = |t: &bnf::ParseTree| {
            let mut n = 0usize;
            let mut keep = vec![t];
            while let Some(t) = keep.pop() {
                if matches!(t.lhs, bnf::Term::Nonterminal(x) if x == "S") {
                    n += 1;
                }
                for c in t.rhs_iter() {
                    if let bnf::ParseTreeNode::Nonterminal(p) = c {
                        keep.push(p);
                    }
                }
            }
            n
        };
        let mut got = 0;
        for t in parser.parse_input(input).take(take) {
            got += 1;
            cx.transitions += 1;
            cx.states += 1;
            check_tree(g, g.start(), input, &t).map_err(|e| format!("[{what}] {e}"))?;
            if !seen.insert(shape_hash(&t)) {
                return Err(format!("[{what}] a tree came twice (the {got}th)"));
            }
            *by_rounds.entry(nodes(&t) - 1).or_default() += 1;
        }
        if got < take {
            return Err(format!("[{what}] {}: the stream ended after {got} trees, there are infinitely many", g.show()));
        }
        for r in 0..=*must {
            let n = by_rounds.get(&r).copied().unwrap_or(0);
            if n != w.pow(r as u32) {
                return Err(format!("[{what}] {}: of the {} trees with {r} rounds only {n} came among the first {take}", g.show(), w.pow(r as u32)));
            }
        }
        cx.traces += 1;
        cx.sample(|| format!("{what}: {take} trees"));
        Ok(())
    })
    .soft()
}

/// A whole universe, not at the start of the input: behind a long terminal, behind and before a
/// recursion, and inside brackets. What a grammar does must not depend on where it does it.
pub fn shifted(want: Want, tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let us = tier.pick(
        vec![crate::uni::two_nt_split(2), crate::uni::nullable_runs(1, 2)],
        vec![crate::uni::two_nt_split(3), crate::uni::nullable_runs(1, 3), crate::uni::one_nt_overlap(3)],
    );
    let ks: Vec<usize> = tier.pick(vec![17], vec![2, 9, 17, 33]);
    for u in us {
        let name: &'static str = match u.name {
            "split-productions" => "shifted-split-productions",
            "overlapping-terminals" => "shifted-overlapping-terminals",
            _ => "shifted-nullable-runs",
        };
        let ks = ks.clone();
        out.push(stage(name, format!("behind a terminal, behind a right recursion, before a left recursion, in brackets ({ks:?} letters): {}", u.bounds()), u.count(), move |i, cx| {
            let g = u.get(i);
            if !g.closed() {
                return Ok(());
            }
            let (t, z) = (g.tn.len(), g.nn.len());
            for &k in &ks {
                let (p, q) = ("p".repeat(k), "q".repeat(k));
                for (alts, pre, post) in [
                    (vec![vec![T(t + 2), N(g.start())]], p.as_str(), ""),
                    (vec![vec![T(t), N(z)], vec![N(g.start())]], p.as_str(), ""),
                    (vec![vec![N(z), T(t + 1)], vec![N(g.start())]], "", q.as_str()),
                    (vec![vec![T(t), N(z), T(t + 1)], vec![N(g.start())]], p.as_str(), q.as_str()),
                ] {
                    let mut w = g.clone();
                    w.tn.extend(["p".to_string(), "q".to_string(), p.clone()]);
                    w.nn.push("Z".into());
                    w.prods.insert(0, (z, alts));
                    let ins: Vec<String> = u.inputs.iter().map(|s| format!("{pre}{s}{post}")).collect();
                    grammar_case(want, &w, &ins, cx)?;
                }
            }
            Ok(())
        }));
    }
    out
}
