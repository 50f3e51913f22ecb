//! Bounded universes of grammars (indexable, enumerated completely) and scaling families.
use crate::refg::{Rg, Sym};
use crate::run::{Seqs, digit};

/// All strings made of at most `max` chunks of `alpha` (duplicates removed).
pub fn inputs(alpha: &[&str], max: u32) -> Vec<String> {
    let s = Seqs { radix: alpha.len() as u64, lo: 0, hi: max };
    let mut v: Vec<String> =
        (0..s.count()).map(|i| s.get(i).into_iter().map(|k| alpha[k]).collect()).collect();
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// One nonterminal's slice of a universe: right-hand sides of `lo..=hi` symbols out of `syms`,
/// `alt_lo..=alt_hi` alternatives.
#[derive(Clone)]
pub struct NtSpec {
    pub syms: Vec<Sym>,
    pub lo: u32,
    pub hi: u32,
    pub alt_lo: u32,
    pub alt_hi: u32,
}

impl NtSpec {
    fn exprs(&self) -> Seqs {
        Seqs { radix: self.syms.len() as u64, lo: self.lo, hi: self.hi }
    }
    fn alts(&self) -> Seqs {
        Seqs { radix: self.exprs().count(), lo: self.alt_lo, hi: self.alt_hi }
    }
    pub fn count(&self) -> u64 {
        self.alts().count()
    }
    pub fn get(&self, i: u64) -> Vec<Vec<Sym>> {
        self.alts()
            .get(i)
            .into_iter()
            .map(|e| self.exprs().get(e as u64).into_iter().map(|s| self.syms[s]).collect())
            .collect()
    }
}

#[derive(Clone)]
pub struct Uni {
    pub name: &'static str,
    pub tn: Vec<String>,
    pub nn: Vec<String>,
    pub nts: Vec<NtSpec>,
    pub inputs: Vec<String>,
    /// Every alternative becomes a production of its own, and the productions of the
    /// nonterminals are interleaved.
    pub split: bool,
}

impl Uni {
    pub fn count(&self) -> u64 {
        self.nts.iter().map(|s| s.count()).product()
    }
    pub fn get(&self, mut i: u64) -> Rg {
        let mut prods = vec![];
        for (nt, spec) in self.nts.iter().enumerate() {
            prods.push((nt, spec.get(digit(&mut i, spec.count()))));
        }
        if self.split {
            let mut out = vec![];
            let rounds = prods.iter().map(|p| p.1.len()).max().unwrap_or(0);
            for r in 0..rounds {
                for (nt, alts) in &prods {
                    if let Some(a) = alts.get(r) {
                        out.push((*nt, vec![a.clone()]));
                    }
                }
            }
            prods = out;
        }
        Rg { tn: self.tn.clone(), nn: self.nn.clone(), prods }
    }
    pub fn bounds(&self) -> String {
        let nts: Vec<String> = self
            .nts
            .iter()
            .enumerate()
            .map(|(i, s)| {
                format!(
                    "<{}>: {}..{} alternatives of {}..{} symbols out of {}",
                    self.nn[i],
                    s.alt_lo,
                    s.alt_hi,
                    s.lo,
                    s.hi,
                    s.syms.len()
                )
            })
            .collect();
        format!(
            "{}; terminals {:?}; {} inputs up to {:?}{}",
            nts.join(", "),
            self.tn,
            self.inputs.len(),
            self.inputs.last().map(String::as_str).unwrap_or(""),
            if self.split { "; one production per alternative" } else { "" }
        )
    }
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn spec(syms: &[Sym], len: (u32, u32), alts: (u32, u32)) -> NtSpec {
    NtSpec { syms: syms.to_vec(), lo: len.0, hi: len.1, alt_lo: alts.0, alt_hi: alts.1 }
}

use Sym::{N, T};

/// Two mutually recursive nonterminals over {a,b}, with empty rules.
pub fn two_nt(max_input: u32) -> Uni {
    let s = [N(0), N(1), T(0), T(1)];
    Uni {
        name: "two-nonterminals",
        tn: strs(&["a", "b"]),
        nn: strs(&["S", "A"]),
        nts: vec![spec(&s, (0, 2), (1, 2)), spec(&s, (0, 2), (1, 2))],
        inputs: inputs(&["a", "b"], max_input),
        split: false,
    }
}

/// The same with a smaller alphabet but one production per alternative.
pub fn two_nt_split(max_input: u32) -> Uni {
    let s = [N(0), N(1), T(0)];
    Uni {
        name: "split-productions",
        tn: strs(&["a"]),
        nn: strs(&["S", "A"]),
        nts: vec![spec(&s, (0, 2), (1, 2)), spec(&s, (0, 2), (1, 2))],
        inputs: inputs(&["a"], max_input),
        split: true,
    }
}

/// One nonterminal, up to three alternatives, overlapping and empty terminals.
pub fn one_nt_overlap(max_input: u32) -> Uni {
    let s = [N(0), T(0), T(1), T(2), T(3)];
    Uni {
        name: "overlapping-terminals",
        tn: strs(&["a", "b", "ab", ""]),
        nn: strs(&["S"]),
        nts: vec![spec(&s, (0, 2), (1, 3))],
        inputs: inputs(&["a", "b"], max_input),
        split: false,
    }
}

/// One nonterminal, long right-hand sides.
pub fn one_nt_long(hi: u32, max_input: u32) -> Uni {
    let s = [N(0), T(0), T(1)];
    Uni {
        name: "long-right-hand-sides",
        tn: strs(&["a", "b"]),
        nn: strs(&["S"]),
        nts: vec![spec(&s, (0, hi), (1, 2))],
        inputs: inputs(&["a", "b"], max_input),
        split: false,
    }
}

/// Multi-byte terminals sharing prefixes and bytes.
pub fn multibyte(a_alts: (u32, u32), max_input: u32) -> Uni {
    let s = [N(0), N(1), T(0), T(1), T(2)];
    let a = [N(0), T(0), T(2), T(3)];
    Uni {
        name: "multi-byte",
        tn: strs(&["é", "ée", "😀", ""]),
        nn: strs(&["表", "a b"]),
        nts: vec![spec(&s, (1, 2), (1, 2)), spec(&a, (1, 2), a_alts)],
        inputs: inputs(&["é", "e", "😀"], max_input),
        split: false,
    }
}

/// Three nonterminals: nullable and shared completions through two levels.
pub fn three_nt(leaf_alts: u32, max_input: u32) -> Uni {
    let top = [N(0), N(1), N(2), T(0)];
    let mid = [N(2), T(0), T(1)];
    let bot = [N(1), T(0), T(1)];
    Uni {
        name: "three-nonterminals",
        tn: strs(&["a", ""]),
        nn: strs(&["S", "A", "B"]),
        nts: vec![spec(&top, (1, 2), (1, 2)), spec(&mid, (1, 2), (1, leaf_alts)), spec(&bot, (1, 1), (1, 2))],
        inputs: inputs(&["a"], max_input),
        split: false,
    }
}

/// Four nonterminals, one alternative each (the last two), over all symbols: chains, joins and
/// cycles of four.
pub fn four_nt(max_input: u32) -> Uni {
    let s = [N(1), N(2), N(3), T(0)];
    let z = [N(0), N(2), T(0)];
    Uni {
        name: "four-nonterminals",
        tn: strs(&["a"]),
        nn: strs(&["S", "A", "B", "C"]),
        nts: vec![spec(&s, (1, 2), (1, 1)), spec(&s, (0, 2), (1, 1)), spec(&s, (0, 2), (1, 1)), spec(&z, (0, 1), (1, 2))],
        inputs: inputs(&["a"], max_input),
        split: false,
    }
}

/// Three symbols per right-hand side over nullable nonterminals.
pub fn nullable_runs(top_alts: u32, max_input: u32) -> Uni {
    let top = [N(1), N(2), T(0), N(0)];
    let leaf = [T(0), T(1), N(2)];
    let leaf2 = [T(0), T(1)];
    Uni {
        name: "nullable-runs",
        tn: strs(&["a", ""]),
        nn: strs(&["S", "A", "B"]),
        nts: vec![spec(&top, (3, 3), (1, top_alts)), spec(&leaf, (0, 1), (1, 2)), spec(&leaf2, (0, 2), (1, 2))],
        inputs: inputs(&["a"], max_input),
        split: false,
    }
}

/// Families that scale one dimension: (what, grammar, inputs to try).
pub fn families(max: usize, max_amb: usize) -> Vec<(String, Rg, Vec<String>)> {
    let mut out: Vec<(String, Rg, Vec<String>)> = vec![];
    let rep = |c: &str, n: usize| c.repeat(n);
    let g1 = |tn: &[&str], alts: Vec<Vec<Sym>>| Rg {
        tn: strs(tn),
        nn: strs(&["S"]),
        prods: vec![(0, alts)],
    };
    for n in 0..=max {
        let near: Vec<String> =
            vec![rep("a", n), rep("a", n) + "b", "b".to_string() + &rep("a", n), rep("a", n / 2) + "b" + &rep("a", n - n / 2)];
        out.push((format!("left recursion, length {n}"), g1(&["a"], vec![vec![N(0), T(0)], vec![T(0)]]), near.clone()));
        out.push((format!("right recursion, length {n}"), g1(&["a"], vec![vec![T(0), N(0)], vec![T(0)]]), near.clone()));
        out.push((format!("right recursion to empty, length {n}"), g1(&["a", ""], vec![vec![T(0), N(0)], vec![T(1)]]), near.clone()));
        out.push((format!("left recursion from ε, length {n}"), g1(&["a"], vec![vec![N(0), T(0)], vec![]]), near.clone()));
        // nesting
        let nest = rep("(", n) + &rep(")", n);
        let mut v = vec![nest.clone(), nest.clone() + ")", "(".to_string() + &nest, rep("()", n.min(12))];
        v.dedup();
        out.push((format!("balanced nesting {n}"), g1(&["(", ")", ""], vec![vec![T(0), N(0), T(1)], vec![T(2)]]), v));
        if n >= 1 {
            // chain of n nonterminals
            let nn: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
            let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n - 1).map(|i| (i, vec![vec![N(i + 1)]])).collect();
            prods.push((n - 1, vec![vec![T(0)]]));
            out.push((
                format!("unit chain of {n}"),
                Rg { tn: strs(&["a"]), nn: nn.clone(), prods: prods.clone() },
                strs(&["", "a", "aa", "b"]),
            ));
            // chain where every level adds a letter on both sides
            let mut prods: Vec<(usize, Vec<Vec<Sym>>)> =
                (0..n - 1).map(|i| (i, vec![vec![T(0), N(i + 1), T(1)]])).collect();
            prods.push((n - 1, vec![vec![T(0)]]));
            let ok = rep("a", n) + &rep("b", n - 1);
            out.push((
                format!("bracketing chain of {n}"),
                Rg { tn: strs(&["a", "b"]), nn, prods },
                vec![ok.clone(), ok.clone() + "b", "a".to_string() + &ok],
            ));
            // n alternatives
            let tn: Vec<String> = (0..n).map(|i| format!("t{i};")).collect();
            out.push((
                format!("{n} alternatives"),
                Rg { tn: tn.clone(), nn: strs(&["S"]), prods: vec![(0, (0..n).map(|i| vec![T(i)]).collect())] },
                tn.iter().cloned().chain(["t".into(), format!("t{n};")]).collect(),
            ));
            out.push((
                format!("{n} productions of one symbol, other symbol between"),
                Rg {
                    tn: tn.clone(),
                    nn: strs(&["S", "A"]),
                    prods: (0..n).flat_map(|i| [(0, vec![vec![N(1), T(i)]]), (1, vec![vec![T(i)]])]).collect(),
                },
                (0..n).map(|i| format!("t{i};t{};", n - 1 - i)).chain(["t0;".to_string()]).collect(),
            ));
            // long right-hand side
            out.push((
                format!("right-hand side of {n} terminals"),
                g1(&["a"], vec![vec![T(0); n]]),
                near.clone(),
            ));
            // distinct terminals in one right-hand side: order matters
            let all: String = tn.iter().take(20).map(|s| s.as_str()).collect();
            let mut swapped: Vec<&str> = tn.iter().take(20).map(|s| s.as_str()).collect();
            swapped.reverse();
            out.push((
                format!("right-hand side of {} distinct terminals", n.min(20)),
                Rg { tn: tn.clone(), nn: strs(&["S"]), prods: vec![(0, vec![(0..n.min(20)).map(T).collect()])] },
                vec![all.clone(), swapped.concat(), all.clone() + "t0;"],
            ));
            // one long terminal
            let long: String = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
            let mut cut = long.clone();
            cut.pop();
            out.push((
                format!("terminal of {n} characters"),
                Rg { tn: vec![long.clone()], nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0)], vec![T(0), N(0)]])] },
                vec![long.clone(), cut, long.clone() + "!", if n <= 40 { long.repeat(2) } else { long.clone() }],
            ));
            // every nonterminal used n times in a row
            out.push((
                format!("{n} times the same nonterminal"),
                Rg { tn: strs(&["a", "b"]), nn: strs(&["S", "A"]), prods: vec![(0, vec![vec![N(1); n]]), (1, vec![vec![T(0)], vec![T(1)]])] },
                vec![rep("a", n), rep("ab", n / 2), rep("ba", n).chars().take(n).collect(), rep("a", n + 1)],
            ));
        }
    }
    for n in 1..=max.min(24) {
        // empty through a chain of n symbols, before, between and after letters
        let nn: Vec<String> = (0..=n).map(|i| format!("n{i}")).collect();
        for (what, top) in [("after", vec![T(0), N(1)]), ("before", vec![N(1), T(0)]), ("between", vec![T(0), N(1), T(0)]), ("twice", vec![N(1), T(0), N(1)]), ("alone", vec![N(1)])] {
            for end in 0..3 {
                let last = match end {
                    0 => vec![vec![]],
                    1 => vec![vec![T(1)]],
                    _ => vec![vec![T(2)], vec![T(1)]],
                };
                let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = vec![(0, vec![top.clone()])];
                prods.extend((1..n).map(|i| (i, vec![vec![N(i + 1)]])));
                prods.push((n, last.clone()));
                let ins = strs(&["", "a", "aa", "b", "ab", "ba", "aba", "bab", "aab", "abb"]);
                out.push((format!("empty chain of {n} {what}, end {end}"), Rg { tn: strs(&["a", "", "b"]), nn: nn.clone(), prods: prods.clone() }, ins.clone()));
                prods[1..].reverse();
                out.push((format!("empty chain of {n} {what}, end {end}, reversed"), Rg { tn: strs(&["a", "", "b"]), nn: nn.clone(), prods }, ins));
            }
        }
        // every symbol of a chain is empty or two of the next: nullability through pairs
        if n <= 4 {
            let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n).map(|i| (i, vec![vec![N(i + 1), N(i + 1)]])).collect();
            prods.push((n, vec![vec![T(1)], vec![T(0)]]));
            out.push((format!("pairs of pairs {n} deep"), Rg { tn: strs(&["a", ""]), nn: nn.clone(), prods }, strs(&["", "a", "aa", "aaa"])));
        }
        // n symbols recursing through each other on the right, on the left, and with an empty prefix
        let letters: Vec<String> = (0..n).map(|i| char::from(b'a' + i as u8).to_string()).collect();
        let word: String = letters.concat();
        for side in 0..3 {
            let mut tn = letters.clone();
            tn.push(String::new());
            let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n)
                .map(|i| {
                    let nx = N((i + 1) % n);
                    let a = match side {
                        0 => vec![T(i), nx],
                        1 => vec![nx, T(i)],
                        _ => vec![N(n), nx, T(i)],
                    };
                    (i, vec![a, vec![T(i)]])
                })
                .collect();
            if side == 2 {
                prods.push((n, vec![vec![T(n)]]));
            }
            let w: String = if side == 0 { word.clone() } else { word.chars().rev().collect() };
            // the recursion enters at symbol 0, whichever side it grows on
            let cut = if side == 0 { w[..w.len() - 1].to_string() } else { w[1..].to_string() };
            out.push((
                format!("mutual recursion of {n}, side {side}"),
                Rg { tn, nn: nn.clone(), prods },
                vec![w.clone(), w.repeat(2), cut, w.clone() + "a", "a".to_string() + &w],
            ));
        }
    }
    for n in 0..=max_amb {
        out.push((format!("S S | a, length {n}"), g1(&["a"], vec![vec![N(0), N(0)], vec![T(0)]]), vec![rep("a", n)]));
        out.push((
            format!("operators, {n} of them"),
            g1(&["a", "+", "*"], vec![vec![N(0), T(1), N(0)], vec![N(0), T(2), N(0)], vec![T(0)]]),
            vec!["a".to_string() + &rep("+a", n), "a".to_string() + &rep("*a+a", n / 2), rep("a+", n)],
        ));
        out.push((format!("S a S | ε, length {n}"), g1(&["a"], vec![vec![N(0), T(0), N(0)], vec![]]), vec![rep("a", n)]));
        // tilings by a, aa, ..., a^n
        let tn: Vec<String> = (1..=n.max(1)).map(|k| rep("a", k)).collect();
        let mut alts: Vec<Vec<Sym>> = (0..tn.len()).map(|t| vec![T(t), N(0)]).collect();
        alts.push(vec![]);
        out.push((
            format!("tilings of length {n}"),
            Rg { tn, nn: strs(&["S"]), prods: vec![(0, alts)] },
            vec![rep("a", n), rep("a", n) + "b"],
        ));
        // n nullable nonterminals in a row
        for k in 0..=n.min(6) {
            out.push((
                format!("{n} optional letters, {k} present"),
                Rg { tn: strs(&["a", ""]), nn: strs(&["S", "A"]), prods: vec![(0, vec![vec![N(1); n]]), (1, vec![vec![T(0)], vec![T(1)]])] },
                vec![rep("a", k)],
            ));
        }
        // repeated identical alternatives
        out.push((
            format!("{} identical alternatives", n + 1),
            Rg { tn: strs(&["a"]), nn: strs(&["S", "A"]), prods: vec![(0, vec![vec![N(1)]; 2]), (1, vec![vec![T(0)]; n + 1])] },
            strs(&["a", "", "aa"]),
        ));
        out.push((
            format!("palindromes, {n}"),
            g1(&["a", "b"], vec![vec![T(0), N(0), T(0)], vec![T(1), N(0), T(1)], vec![T(0)], vec![T(1)], vec![]]),
            vec![rep("ab", n) + "a", rep("a", n), rep("ab", n), rep("b", n) + "a" + &rep("b", n)],
        ));
        out.push((
            format!("multi-byte tilings {n}"),
            Rg {
                tn: strs(&["😀", "😀😀", "é", "😀é", "́"]),
                nn: strs(&["S"]),
                prods: vec![(0, vec![vec![T(0), N(0)], vec![T(1), N(0)], vec![T(2), N(0)], vec![T(3), N(0)], vec![T(4)], vec![]])],
            },
            vec![rep("😀", n.min(9)), rep("😀é", n.min(7)), rep("é😀", n.min(7)), rep("😀", n.min(9)) + "\u{301}"],
        ));
    }
    out
}
