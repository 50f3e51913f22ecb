//! The reference model of context-free grammars: an explicit grammar value, its derivability
//! relation as a least fixpoint, its derivation trees, and the (in)finiteness of the search.
//! Nothing here calls the library under test except the conversions at the end.
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rg {
    pub tn: Vec<String>,
    pub nn: Vec<String>,
    /// productions in order: (lhs, alternatives)
    pub prods: Vec<(usize, Vec<Vec<Sym>>)>,
}

pub type Mask = u128;
pub const MAX_INPUT: usize = 120;

impl Rg {
    pub fn start(&self) -> usize {
        self.prods[0].0
    }
    pub fn flat(&self) -> Vec<(usize, &[Sym])> {
        self.prods.iter().flat_map(|(l, alts)| alts.iter().map(move |a| (*l, a.as_slice()))).collect()
    }
    pub fn alts_of(&self, nt: usize) -> Vec<&[Sym]> {
        self.flat().into_iter().filter(|(l, _)| *l == nt).map(|(_, a)| a).collect()
    }
    pub fn defined(&self) -> BTreeSet<usize> {
        self.prods.iter().map(|p| p.0).collect()
    }
    pub fn used(&self) -> BTreeSet<usize> {
        self.flat()
            .iter()
            .flat_map(|(_, a)| a.iter())
            .filter_map(|s| if let Sym::N(n) = s { Some(*n) } else { None })
            .collect()
    }
    pub fn closed(&self) -> bool {
        !self.prods.is_empty() && self.used().is_subset(&self.defined())
    }
    /// Nonterminals that derive some terminal string (undefined ones do not).
    pub fn productive(&self) -> BTreeSet<usize> {
        let mut p = BTreeSet::new();
        loop {
            let before = p.len();
            for (l, a) in self.flat() {
                if a.iter().all(|s| match s {
                    Sym::T(_) => true,
                    Sym::N(n) => p.contains(n),
                }) {
                    p.insert(l);
                }
            }
            if p.len() == before {
                return p;
            }
        }
    }
    pub fn reachable(&self, from: usize) -> BTreeSet<usize> {
        let mut r = BTreeSet::from([from]);
        loop {
            let before = r.len();
            for (l, a) in self.flat() {
                if r.contains(&l) {
                    for s in a {
                        if let Sym::N(n) = s {
                            r.insert(*n);
                        }
                    }
                }
            }
            if r.len() == before {
                return r;
            }
        }
    }
    pub fn show(&self) -> String {
        let mut out = String::new();
        for (l, alts) in &self.prods {
            out.push_str(&format!("<{}> ::=", self.nn[*l]));
            for (i, a) in alts.iter().enumerate() {
                if i > 0 {
                    out.push_str(" |");
                }
                if a.is_empty() {
                    out.push_str(" ε");
                }
                for s in a {
                    match s {
                        Sym::T(t) => out.push_str(&format!(" {:?}", self.tn[*t])),
                        Sym::N(n) => out.push_str(&format!(" <{}>", self.nn[*n])),
                    }
                }
            }
            out.push_str("; ");
        }
        out
    }
    pub fn term(&self, s: Sym) -> bnf::Term {
        match s {
            Sym::T(t) => bnf::Term::Terminal(self.tn[t].clone()),
            Sym::N(n) => bnf::Term::Nonterminal(self.nn[n].clone()),
        }
    }
    pub fn to_bnf(&self) -> bnf::Grammar {
        bnf::Grammar::from_parts(
            self.prods
                .iter()
                .map(|(l, alts)| {
                    bnf::Production::from_parts(
                        self.term(Sym::N(*l)),
                        alts.iter()
                            .map(|a| bnf::Expression::from_parts(a.iter().map(|s| self.term(*s)).collect()))
                            .collect(),
                    )
                })
                .collect(),
        )
    }
    /// Read a grammar value of the library back into the model (LHS must be nonterminals).
    pub fn from_bnf(g: &bnf::Grammar) -> Result<Rg, String> {
        let mut rg = Rg { tn: vec![], nn: vec![], prods: vec![] };
        fn id(v: &mut Vec<String>, s: &str) -> usize {
            match v.iter().position(|x| x == s) {
                Some(i) => i,
                None => {
                    v.push(s.to_string());
                    v.len() - 1
                }
            }
        }
        for p in g.productions_iter() {
            let l = match &p.lhs {
                bnf::Term::Nonterminal(n) => id(&mut rg.nn, n),
                bnf::Term::Terminal(t) => return Err(format!("terminal {t:?} as left-hand side")),
            };
            let mut alts = vec![];
            for e in p.rhs_iter() {
                alts.push(
                    e.terms_iter()
                        .map(|t| match t {
                            bnf::Term::Terminal(t) => Sym::T(id(&mut rg.tn, t)),
                            bnf::Term::Nonterminal(n) => Sym::N(id(&mut rg.nn, n)),
                        })
                        .collect(),
                );
            }
            rg.prods.push((l, alts));
        }
        Ok(rg)
    }
}

/// Derivability: `ends[nt][i]` = set of `j` such that `nt` derives `input[i..j]`.
pub struct Rec<'g> {
    pub g: &'g Rg,
    pub input: &'g [u8],
    pub flat: Vec<(usize, &'g [Sym])>,
    by_nt: Vec<Vec<usize>>,
    pub ends: Vec<Vec<Mask>>,
}

impl<'g> Rec<'g> {
    pub fn new(g: &'g Rg, input: &'g str) -> Self {
        let input = input.as_bytes();
        let n = input.len();
        assert!(n <= MAX_INPUT);
        let flat = g.flat();
        let mut by_nt = vec![vec![]; g.nn.len()];
        for (i, (l, _)) in flat.iter().enumerate() {
            by_nt[*l].push(i);
        }
        let mut r = Rec { g, input, flat, by_nt, ends: vec![vec![0; n + 1]; g.nn.len()] };
        loop {
            let mut changed = false;
            for ai in 0..r.flat.len() {
                let (l, rhs) = r.flat[ai];
                for i in 0..=n {
                    let mut mask: Mask = 1 << i;
                    for s in rhs {
                        mask = r.step(mask, *s);
                        if mask == 0 {
                            break;
                        }
                    }
                    if mask & !r.ends[l][i] != 0 {
                        r.ends[l][i] |= mask;
                        changed = true;
                    }
                }
            }
            if !changed {
                return r;
            }
        }
    }
    pub fn sym_ends(&self, i: usize, s: Sym) -> Mask {
        match s {
            Sym::T(t) => {
                let t = self.g.tn[t].as_bytes();
                if self.input[i..].starts_with(t) { 1 << (i + t.len()) } else { 0 }
            }
            Sym::N(n) => self.ends[n][i],
        }
    }
    fn step(&self, mask: Mask, s: Sym) -> Mask {
        let mut out = 0;
        for p in bits(mask) {
            out |= self.sym_ends(p, s);
        }
        out
    }
    pub fn accepts(&self, nt: usize) -> bool {
        self.ends[nt][0] >> self.input.len() & 1 == 1
    }
    /// Can `rhs[m..]` starting at `p` end exactly at `j`?
    fn can(&self, rhs: &[Sym], p: usize, j: usize) -> bool {
        let mut mask: Mask = 1 << p;
        for s in rhs {
            mask = self.step(mask, *s);
            if mask == 0 {
                return false;
            }
        }
        mask >> j & 1 == 1
    }
    /// Every way to split `[i,j)` over `rhs`: list of split positions (one end per symbol).
    fn splits(&self, rhs: &[Sym], i: usize, j: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut cur = vec![];
        self.splits_rec(rhs, i, j, &mut cur, &mut out);
        out
    }
    fn splits_rec(&self, rhs: &[Sym], p: usize, j: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        match rhs.split_first() {
            None => {
                if p == j {
                    out.push(cur.clone());
                }
            }
            Some((s, rest)) => {
                for e in bits(self.sym_ends(p, *s)) {
                    if self.can(rest, e, j) {
                        cur.push(e);
                        self.splits_rec(rest, e, j, cur, out);
                        cur.pop();
                    }
                }
            }
        }
    }
    /// The spans an `nt` node over `[i,j)` can have as nonterminal children.
    fn children(&self, nt: usize, i: usize, j: usize) -> BTreeSet<(usize, usize, usize)> {
        let mut out = BTreeSet::new();
        for &ai in &self.by_nt[nt] {
            let rhs = self.flat[ai].1;
            for sp in self.splits(rhs, i, j) {
                let mut p = i;
                for (s, e) in rhs.iter().zip(&sp) {
                    if let Sym::N(n) = s {
                        out.insert((*n, p, *e));
                    }
                    p = *e;
                }
            }
        }
        out
    }
    /// Does `nt` over `[i,j)` have infinitely many derivation trees?
    pub fn infinite(&self, nt: usize, i: usize, j: usize, memo: &mut HashMap<(usize, usize, usize), u8>) -> bool {
        if self.ends[nt][i] >> j & 1 == 0 {
            return false;
        }
        match memo.get(&(nt, i, j)) {
            Some(1) => return true, // on the stack: a cycle
            Some(2) => return false,
            Some(_) => return true,
            None => {}
        }
        memo.insert((nt, i, j), 1);
        let mut inf = false;
        for (n, a, b) in self.children(nt, i, j) {
            if self.infinite(n, a, b, memo) {
                inf = true;
                break;
            }
        }
        memo.insert((nt, i, j), if inf { 3 } else { 2 });
        inf
    }
    /// Nonterminals the top-down search can ask for, with the position.
    pub fn predicted(&self, start: usize) -> BTreeSet<(usize, usize)> {
        let mut seen = BTreeSet::from([(start, 0)]);
        let mut todo = vec![(start, 0)];
        while let Some((nt, i)) = todo.pop() {
            for &ai in &self.by_nt[nt] {
                let mut mask: Mask = 1 << i;
                for s in self.flat[ai].1 {
                    if let Sym::N(n) = s {
                        for p in bits(mask) {
                            if seen.insert((*n, p)) {
                                todo.push((*n, p));
                            }
                        }
                    }
                    mask = self.step(mask, *s);
                }
            }
        }
        seen
    }
    /// Is the whole top-down search finite: no predicted nonterminal has infinitely many
    /// derivations over any span?
    pub fn search_finite(&self, start: usize) -> bool {
        let mut memo = HashMap::new();
        for (nt, i) in self.predicted(start) {
            for j in bits(self.ends[nt][i]) {
                if self.infinite(nt, i, j, &mut memo) {
                    return false;
                }
            }
        }
        true
    }
    /// All derivation trees (canonical text), or None if more than `cap`. Only call when finite.
    pub fn trees(
        &self,
        nt: usize,
        i: usize,
        j: usize,
        cap: usize,
        memo: &mut HashMap<(usize, usize, usize), Option<Rc<Vec<String>>>>,
    ) -> Option<Rc<Vec<String>>> {
        if let Some(t) = memo.get(&(nt, i, j)) {
            return t.clone();
        }
        let mut out: Vec<String> = vec![];
        for &ai in &self.by_nt[nt] {
            let rhs = self.flat[ai].1;
            for sp in self.splits(rhs, i, j) {
                let mut acc = vec![format!("({}", self.g.nn[nt])];
                let mut p = i;
                for (s, e) in rhs.iter().zip(&sp) {
                    match s {
                        Sym::T(t) => {
                            let lab = leaf(&self.g.tn[*t]);
                            acc.iter_mut().for_each(|a| a.push_str(&lab));
                        }
                        Sym::N(n) => {
                            let Some(kids) = self.trees(*n, p, *e, cap, memo) else {
                                memo.insert((nt, i, j), None);
                                return None;
                            };
                            let mut next = Vec::with_capacity(acc.len() * kids.len());
                            if acc.len() * kids.len() > cap {
                                memo.insert((nt, i, j), None);
                                return None;
                            }
                            for a in &acc {
                                for k in kids.iter() {
                                    next.push(format!("{a}{k}"));
                                }
                            }
                            acc = next;
                        }
                    }
                    p = *e;
                }
                out.extend(acc.into_iter().map(|a| a + ")"));
                if out.len() > cap {
                    memo.insert((nt, i, j), None);
                    return None;
                }
            }
        }
        let out = Some(Rc::new(out));
        memo.insert((nt, i, j), out.clone());
        out
    }
    /// Cost of the search, by level: after level `l` (all derivation steps whose longest chain
    /// of prerequisites has at most `l` steps), how many complete trees and how many partial
    /// derivations exist. Stops at `budget` partial derivations or at a fixpoint.
    pub fn levels(&self, start: usize, budget: u64) -> Levels {
        let n = self.input.len();
        let w = n + 1;
        let na = self.flat.len();
        let at = |i: usize, j: usize| i * w + j;
        let mut cur: Vec<Vec<Vec<u64>>> =
            self.flat.iter().map(|(_, r)| vec![vec![0u64; w * w]; r.len() + 1]).collect();
        let mut pred_level: HashMap<(usize, usize), usize> = HashMap::from([((start, 0), 0)]);
        let mut out = Levels { trees: vec![], total: vec![], pred: HashMap::new() };
        for level in 0..200usize {
            // completed derivations per nonterminal
            let mut comp = vec![vec![0u64; w * w]; self.g.nn.len()];
            for a in 0..na {
                let (l, r) = self.flat[a];
                for k in 0..w * w {
                    comp[l][k] = comp[l][k].saturating_add(cur[a][r.len()][k]);
                }
            }
            let mut next = cur.clone();
            let mut newly = vec![];
            for a in 0..na {
                let (l, r) = self.flat[a];
                for i in 0..w {
                    if pred_level.get(&(l, i)).is_some_and(|p| *p <= level) {
                        next[a][0][at(i, i)] = 1;
                    }
                    for (d, s) in r.iter().enumerate() {
                        if let Sym::N(b) = s {
                            for k in i..w {
                                if cur[a][d][at(i, k)] > 0 && !pred_level.contains_key(&(*b, k)) {
                                    newly.push((*b, k));
                                }
                            }
                        }
                        for j in i..w {
                            let mut sum = 0u64;
                            for k in i..=j {
                                let c = cur[a][d][at(i, k)];
                                if c == 0 {
                                    continue;
                                }
                                let m = match s {
                                    Sym::T(_) => (self.sym_ends(k, *s) >> j & 1) as u64,
                                    Sym::N(b) => comp[*b][at(k, j)],
                                };
                                sum = sum.saturating_add(c.saturating_mul(m));
                            }
                            next[a][d + 1][at(i, j)] = sum;
                        }
                    }
                }
            }
            for k in newly {
                pred_level.entry(k).or_insert(level + 1);
            }
            let total = next.iter().flatten().flatten().fold(0u64, |x, y| x.saturating_add(*y));
            let trees = (0..na)
                .filter(|a| self.flat[*a].0 == start)
                .fold(0u64, |x, a| x.saturating_add(next[a][self.flat[a].1.len()][at(0, n)]));
            out.trees.push(trees);
            out.total.push(total);
            if total > budget || (next == cur && level > 0 && !pred_level.values().any(|p| *p > level)) {
                break;
            }
            cur = next;
        }
        out.pred = pred_level;
        out
    }
    /// All derivation trees with at most `h` levels of nonterminals, each with its search
    /// level, or None if more than `cap`.
    pub fn trees_upto(&self, nt: usize, i: usize, j: usize, h: usize, cap: usize, lv: &Levels) -> Option<Vec<(String, usize)>> {
        let mut out: Vec<(String, usize)> = vec![];
        if h == 0 || self.ends[nt][i] >> j & 1 == 0 {
            return Some(out);
        }
        let base = *lv.pred.get(&(nt, i))?;
        for &ai in &self.by_nt[nt] {
            let rhs = self.flat[ai].1;
            for sp in self.splits(rhs, i, j) {
                let mut acc = vec![(format!("({}", self.g.nn[nt]), base)];
                let mut p = i;
                for (s, e) in rhs.iter().zip(&sp) {
                    match s {
                        Sym::T(t) => {
                            let lab = leaf(&self.g.tn[*t]);
                            for a in acc.iter_mut() {
                                a.0.push_str(&lab);
                                a.1 += 1;
                            }
                        }
                        Sym::N(n) => {
                            let kids = self.trees_upto(*n, p, *e, h - 1, cap, lv)?;
                            if acc.len() * kids.len() > cap {
                                return None;
                            }
                            let mut next = vec![];
                            for a in &acc {
                                for k in &kids {
                                    next.push((format!("{}{}", a.0, k.0), 1 + a.1.max(k.1)));
                                }
                            }
                            acc = next;
                        }
                    }
                    p = *e;
                }
                out.extend(acc.into_iter().map(|a| (a.0 + ")", a.1)));
                if out.len() > cap {
                    return None;
                }
            }
        }
        Some(out)
    }
}

/// See [`Rec::levels`].
pub struct Levels {
    pub trees: Vec<u64>,
    pub total: Vec<u64>,
    pub pred: HashMap<(usize, usize), usize>,
}
impl Levels {
    /// How many trees a breadth-first search has certainly given within the budget.
    pub fn affordable(&self, budget: u64) -> u64 {
        let mut best = 0;
        for l in 1..self.total.len() {
            if self.total[l] <= budget {
                best = self.trees[l - 1];
            }
        }
        best
    }
    pub fn trees_by(&self, level: usize) -> u64 {
        // one level of slack: index l counts what exists after level l
        *self.trees.get(level + 1).unwrap_or(&u64::MAX)
    }
}

pub fn bits(mut m: Mask) -> impl Iterator<Item = usize> {
    std::iter::from_fn(move || {
        if m == 0 {
            None
        } else {
            let b = m.trailing_zeros() as usize;
            m &= m - 1;
            Some(b)
        }
    })
}

pub fn leaf(t: &str) -> String {
    format!(" {}:{t:?}", t.len())
}

/// Canonical text of a tree the library returned.
pub fn canon(t: &bnf::ParseTree) -> String {
    let mut s = String::new();
    canon_into(t, &mut s);
    s
}
fn canon_into(t: &bnf::ParseTree, s: &mut String) {
    s.push('(');
    match t.lhs {
        bnf::Term::Nonterminal(n) => s.push_str(n),
        bnf::Term::Terminal(n) => {
            s.push('!');
            s.push_str(n)
        }
    }
    for c in t.rhs_iter() {
        match c {
            bnf::ParseTreeNode::Terminal(t) => s.push_str(&leaf(t)),
            bnf::ParseTreeNode::Nonterminal(p) => canon_into(p, s),
        }
    }
    s.push(')');
}

/// C01 judge: is `t` a derivation of exactly `input` from `start` under `g`?
pub fn check_tree(g: &Rg, start: usize, input: &str, t: &bnf::ParseTree) -> Result<(), String> {
    let mut yielded = String::new();
    fn walk(g: &Rg, t: &bnf::ParseTree, out: &mut String) -> Result<usize, String> {
        let nt = match t.lhs {
            bnf::Term::Nonterminal(n) => g
                .nn
                .iter()
                .position(|x| x == n)
                .ok_or_else(|| format!("node for unknown nonterminal <{n}>"))?,
            bnf::Term::Terminal(x) => return Err(format!("node labelled with terminal {x:?}")),
        };
        let mut rhs = vec![];
        for c in t.rhs_iter() {
            match c {
                bnf::ParseTreeNode::Terminal(x) => {
                    out.push_str(x);
                    rhs.push(Sym::T(
                        g.tn.iter().position(|y| y == x).ok_or_else(|| format!("unknown terminal {x:?}"))?,
                    ));
                }
                bnf::ParseTreeNode::Nonterminal(p) => rhs.push(Sym::N(walk(g, p, out)?)),
            }
        }
        if !g.alts_of(nt).iter().any(|a| *a == rhs.as_slice()) {
            return Err(format!("node <{}> uses {rhs:?}, which is not one of its alternatives", g.nn[nt]));
        }
        Ok(nt)
    }
    let root = walk(g, t, &mut yielded)?;
    if root != start {
        return Err(format!("root is <{}>, expected <{}>", g.nn[root], g.nn[start]));
    }
    if yielded != input {
        return Err(format!("leaves spell {yielded:?}, input is {input:?}"));
    }
    Ok(())
}
