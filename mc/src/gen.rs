//! C12-C19: sentence generation. Every choice a strategy (or its random generator) can make and
//! every answer a callback can give is explored; the reference evaluator says what must happen.
use crate::choice::*;
use crate::refg::{Rec, Rg, Sym};
use crate::run::*;
use crate::uni::{Uni, spec, strs};
use Sym::{N, T};
use bnf::{CoverageGuided, DepthBounded, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Term, Weighted};
use bnf::rand::{SeedableRng, rngs::StdRng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- reference evaluator

pub enum Stop {
    Aborted,
    Error,
}

pub struct Model<'g> {
    pub g: &'g Rg,
    pub script: Script,
    pub rejects: Cell<usize>,
    pub log: RefCell<Vec<Ev>>,
    pub keep: bool,
    alts: HashMap<usize, Vec<Vec<Sym>>>,
}

impl<'g> Model<'g> {
    pub fn new(g: &'g Rg, script: &Script, rejects: usize, keep: bool) -> Self {
        let alts = g.defined().into_iter().map(|n| (n, g.alts_of(n).into_iter().map(|a| a.to_vec()).collect())).collect();
        Model { g, script: script.clone(), rejects: Cell::new(rejects), log: RefCell::default(), keep, alts }
    }
    fn show_alts(&self, nt: usize) -> Vec<Vec<Term>> {
        self.alts[&nt].iter().map(|a| a.iter().map(|s| self.g.term(*s)).collect()).collect()
    }
    pub fn eval(&self, nt: usize, depth: usize) -> Result<String, Stop> {
        let Some(alts) = self.alts.get(&nt) else { return Ok(format!("<{}>", self.g.nn[nt])) };
        loop {
            if alts.is_empty() || (alts.len() == 1 && alts[0].is_empty()) {
                return Err(Stop::Error);
            }
            let took = self.script.decide(alts.len());
            if self.keep {
                self.log.borrow_mut().push(Ev::Choose {
                    nt: self.g.nn[nt].clone(),
                    alts: self.show_alts(nt),
                    depth,
                    took,
                });
            }
            let Some(took) = took else { return Err(Stop::Aborted) };
            let mut value = String::new();
            for s in &alts[took] {
                match s {
                    T(t) => value.push_str(&self.g.tn[*t]),
                    N(n) => value.push_str(&self.eval(*n, depth + 1)?),
                }
            }
            let mut ok = true;
            if self.rejects.get() > 0 {
                match self.script.decide(2) {
                    None => return Err(Stop::Aborted),
                    Some(k) => ok = k == 0,
                }
                if !ok {
                    self.rejects.set(self.rejects.get() - 1);
                }
            }
            if self.keep {
                self.log.borrow_mut().push(Ev::Call { nt: self.g.nn[nt].clone(), value: value.clone(), ok });
            }
            if ok {
                return Ok(value);
            }
        }
    }
}

/// Symbols that can produce a value: like productive, but a symbol whose only alternative has
/// no terms counts as having no choosable alternative.
pub fn generable(g: &Rg) -> BTreeSet<usize> {
    let mut p = BTreeSet::new();
    loop {
        let before = p.len();
        for nt in g.defined() {
            let alts = g.alts_of(nt);
            if alts.is_empty() || (alts.len() == 1 && alts[0].is_empty()) {
                continue;
            }
            if alts.iter().any(|a| a.iter().all(|s| match s {
                T(_) => true,
                N(n) => p.contains(n),
            })) {
                p.insert(nt);
            }
        }
        if p.len() == before {
            return p;
        }
    }
}

/// The same grammar with every undefined nonterminal replaced by the terminal `<name>`.
fn close(g: &Rg) -> Rg {
    let def = g.defined();
    let mut out = g.clone();
    for n in g.used() {
        if !def.contains(&n) {
            let t = out.tn.len();
            out.tn.push(format!("<{}>", g.nn[n]));
            for (_, alts) in &mut out.prods {
                for s in alts.iter_mut().flatten() {
                    if *s == N(n) {
                        *s = T(t);
                    }
                }
            }
        }
    }
    out
}

fn member(g: &Rg, s: &str) -> bool {
    s.len() <= crate::refg::MAX_INPUT && Rec::new(g, s).accepts(g.start())
}

// ---------------------------------------------------------------- universes

fn small() -> Uni {
    let s = [N(0), N(1), T(0), T(1)];
    Uni {
        name: "two-symbols",
        tn: strs(&["a", "é b"]),
        nn: strs(&["S", "A"]),
        nts: vec![spec(&s, (0, 2), (1, 2)), spec(&s, (0, 2), (1, 2))],
        inputs: vec![],
        split: false,
    }
}
fn small_split() -> Uni {
    let s = [N(0), N(1), T(0)];
    Uni {
        name: "split-productions",
        tn: strs(&["a"]),
        nn: strs(&["S", "A"]),
        nts: vec![spec(&s, (0, 2), (1, 2)), spec(&s, (0, 2), (1, 2))],
        inputs: vec![],
        split: true,
    }
}
fn with_undefined() -> Uni {
    let s = [N(0), N(1), N(2), T(0)];
    let a = [N(0), N(3), T(0)];
    Uni {
        name: "undefined-symbols",
        tn: strs(&["a"]),
        nn: strs(&["S", "A", "u", "<é x>"]),
        nts: vec![spec(&s, (0, 2), (1, 2)), spec(&a, (1, 2), (1, 1))],
        inputs: vec![],
        split: false,
    }
}
fn three(alts: u32) -> Uni {
    let top = [N(0), N(1), N(2), T(0)];
    let mid = [N(0), N(2), T(1)];
    let bot = [N(1), T(2)];
    Uni {
        name: "three-symbols",
        tn: strs(&["a", "b", "' \""]),
        nn: strs(&["S", "A", "B"]),
        nts: vec![spec(&top, (1, 2), (2, 2)), spec(&mid, (0, 2), (1, alts)), spec(&bot, (1, 1), (1, 2))],
        inputs: vec![],
        split: false,
    }
}
/// No recursion: all executions are finite.
fn acyclic(top_alts: u32, mid_alts: u32, bot_alts: u32) -> Uni {
    let top = [N(1), N(2), T(0)];
    let mid = [N(2), T(1)];
    let bot = [T(0), T(2)];
    Uni {
        name: "acyclic",
        tn: strs(&["a", "b", ""]),
        nn: strs(&["S", "A", "B"]),
        nts: vec![spec(&top, (1, 2), (1, top_alts)), spec(&mid, (0, 1), (1, mid_alts)), spec(&bot, (0, 1), (1, bot_alts))],
        inputs: vec![],
        split: false,
    }
}
/// The same, one production per alternative.
fn acyclic_split() -> Uni {
    Uni { name: "acyclic-split", split: true, ..acyclic(2, 2, 2) }
}

/// Productions without alternatives among others.
fn bare(tier: Tier, f: impl Fn(&Rg, &mut Cx) -> Res + Send + Sync + 'static) -> Stage {
    let (n, bounds, get) = crate::parse::bare_productions(tier);
    stage("without-alternatives", bounds, n, move |i, cx| f(&get(i), cx))
}

fn on_universe(u: Uni, f: impl Fn(&Rg, &mut Cx) -> Res + Send + Sync + 'static) -> Stage {
    let n = u.count();
    stage(u.name, u.bounds(), n, move |i, cx| {
        let g = u.get(i);
        f(&g, cx).map_err(|e| format!("{}{e}", g.show()))
    })
}

// ---------------------------------------------------------------- running the library

pub const ENTRY: [&str; 4] = ["generate_seeded", "generate_seeded_callback", "generate", "generate_callback"];

/// Run one of the entry points that choose their own strategy.
pub fn entry(which: usize, g: &Grammar, seed: u8, cb: impl Fn(&str, &str) -> bool) -> Result<String, bnf::Error> {
    let mut rng: StdRng = SeedableRng::from_seed([seed; 32]);
    match which {
        0 => g.generate_seeded(&mut rng),
        1 => g.generate_seeded_callback(&mut rng, cb),
        2 => g.generate(),
        _ => g.generate_callback(cb),
    }
}

fn lcm_alts(g: &Rg) -> usize {
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    g.defined().iter().fold(1, |m, n| {
        let k = g.alts_of(*n).len().max(1);
        m / gcd(m, k) * k
    })
}

fn len_units(p: &Production) -> usize {
    p.len().max(1)
}

/// Drives a strategy towards the first alternative: of a few draws, the first that gives it.
struct Recursing(DepthBounded);

impl GenerationStrategy for Recursing {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let mut last = None;
        for k in 0..64u64 {
            rand::mc_oracle::set(Some(Box::new(move |bits| match k {
                0..8 => Some(grid(k as usize, 8, bits)),
                8..16 => Some(k - 8),
                _ => None,
            })));
            let _o = Oracle;
            last = self.0.choose(p, depth);
            if last.is_some_and(|e| index_of(p, e) == Some(0)) {
                break;
            }
        }
        last
    }
}

/// Is one choice one draw? (Then enumerating draws enumerates choices.)
fn single_draw() -> bool {
    let p = prod(&[&[T(0)], &[T(0)], &[T(0)]], "s");
    (0..16).all(|seed| {
        let mut s = RandomWalk::from_seed([seed; 32]);
        draws(|| {
            s.choose(&p, 0);
        }) == 1
    })
}

/// Does the random walk draw even when there is only one alternative?
fn draws_for_one() -> bool {
    let p = prod(&[&[T(0)]], "s");
    let mut s = RandomWalk::from_seed([3; 32]);
    draws(|| {
        s.choose(&p, 0);
    }) > 0
}

/// Can an execution that was started here go on forever without a draw? (Symbols with a single
/// alternative that lead back to themselves, under a walk that only draws when it must choose.)
fn drawless_loop(g: &Rg) -> bool {
    if draws_for_one() {
        return false;
    }
    let mut dead: BTreeSet<usize> = g.defined().into_iter().filter(|n| g.alts_of(*n).len() == 1).collect();
    loop {
        let next: BTreeSet<usize> =
            dead.iter().copied().filter(|n| g.alts_of(*n)[0].iter().any(|s| matches!(s, N(m) if dead.contains(m)))).collect();
        if next.len() == dead.len() {
            return !dead.is_empty();
        }
        dead = next;
    }
}

// ---------------------------------------------------------------- C12

/// Every sentence belongs to the language, whatever is chosen.
fn sound(g: &Rg, cap: usize, cx: &mut Cx) -> Res {
    let gram = g.to_bnf();
    let cg = close(g);
    let parser = if g.closed() { gram.build_parser().ok() } else { None };
    let mut known: HashMap<String, ()> = HashMap::new();
    let mut check = |s: &str, how: &str| -> Res {
        if known.contains_key(s) {
            return Ok(());
        }
        if !member(&cg, s) {
            return Err(format!("{how} generated {s:?}, which the grammar does not derive"));
        }
        if let Some(p) = &parser {
            // the reference says the search succeeds; a first tree must come
            let rec = Rec::new(g, s);
            let finite = rec.search_finite(g.start());
            if (finite || crate::parse::obtainable(&rec, g.start(), 1) > 0) && p.parse_input(s).next().is_none() {
                return Err(format!("{how} generated {s:?}, which does not parse"));
            }
        }
        known.insert(s.to_string(), ());
        Ok(())
    };
    every(cap, 20_000, |script| {
        let mut any = Any::new(script, false);
        let r = gram.generate_seeded_with_strategy(&mut any);
        cx.states += 1;
        cx.transitions += script.taken().len() as u64;
        match r {
            Ok(s) if !script.aborted() => {
                cx.traces += 1;
                check(&s, "an arbitrary strategy")
            }
            _ => Ok(()),
        }
    })?;
    macro_rules! with {
        ($mk:expr, $how:expr) => {
            every(cap.min(5), 3000, |script| {
                let mut st = Driven { inner: $mk, script: script.clone(), units: len_units, log: Rc::default() };
                for _ in 0..2 {
                    let r = gram.generate_seeded_with_strategy(&mut st);
                    cx.states += 1;
                    if script.aborted() {
                        break;
                    }
                    if let Ok(s) = r {
                        cx.traces += 1;
                        check(&s, $how)?;
                    }
                }
                Ok(())
            })?;
        };
    }
    with!(RandomWalk::from_seed([1; 32]), "RandomWalk");
    with!(DepthBounded::from_seed(1, [1; 32]), "DepthBounded(1)");
    with!(CoverageGuided::from_seed([1; 32]), "CoverageGuided");
    with!(Weighted::from_seed(1, 1, [1; 32]), "Weighted(1,1)");
    let m = lcm_alts(g);
    let entries = if drawless_loop(g) { 0 } else { ENTRY.len() };
    for e in 0..entries {
        every(cap.min(if e == 1 { 4 } else { 3 }), 500, |script| {
            let _o = oracle(script, m, true);
            let r = within(|| entry(e, &gram, 7, |_, _| true));
            cx.states += 1;
            if let Some(Ok(s)) = r {
                cx.traces += 1;
                check(&s, ENTRY[e])?;
            }
            Ok(())
        })?;
    }
    cx.bump("sentences", known.len() as u64);
    cx.sample(|| format!("{} sentences such as {:?}", g.show(), known.keys().take(3).collect::<Vec<_>>()));
    Ok(())
}

/// Grammars with one derivation scaled up, and the sentence it must give.
fn scaled(min: usize, max: usize) -> Vec<(String, Rg, String)> {
    let mut out = vec![];
    let mut sizes: Vec<usize> = (0..=40).collect();
    sizes.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]);
    sizes.retain(|n| (min..=max).contains(n));
    for n in sizes {
        // a chain of n symbols, each adding a letter on each side
        let nn: Vec<String> = (0..=n).map(|i| format!("n{i}")).collect();
        let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n).map(|i| (i, vec![vec![T(0), N(i + 1), T(1)]])).collect();
        prods.push((n, vec![vec![T(2)]]));
        let want = "(".repeat(n) + "é" + &")".repeat(n);
        out.push((format!("nesting {n}"), Rg { tn: strs(&["(", ")", "é"]), nn: nn.clone(), prods: prods.clone() }, want.clone()));
        prods[1..].reverse();
        out.push((format!("nesting {n}, reversed productions"), Rg { tn: strs(&["(", ")", "é"]), nn, prods }, want));
        // a right-hand side of n symbols
        out.push((
            format!("{n} symbols in a row"),
            Rg {
                tn: strs(&["x ", "y"]),
                nn: strs(&["S", "A"]),
                prods: vec![(0, vec![(0..n + 1).map(|i| if i % 2 == 0 { N(1) } else { T(1) }).collect()]), (1, vec![vec![T(0)]])],
            },
            (0..n + 1).map(|i| if i % 2 == 0 { "x " } else { "y" }).collect(),
        ));
        // one terminal of n characters, at both ends of whitespace
        let long: String = (0..n).map(|i| [' ', 'a', '\n', '表', '\'', '<'][i % 6]).collect();
        out.push((
            format!("terminal of {n} characters"),
            Rg { tn: vec![long.clone(), format!(" {long}\t")], nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0), T(1), T(0)]])] },
            format!("{long} {long}\t{long}"),
        ));
        // n productions of the same symbol, all the same
        out.push((
            format!("{} productions of one symbol", n + 1),
            Rg { tn: strs(&["z"]), nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0), T(0)]]); n + 1] },
            "zz".into(),
        ));
    }
    out
}

/// Alternatives 0 or last all the way: one execution per entry point, result known.
fn scaled_case(g: &Rg, want: &str, cx: &mut Cx) -> Res {
    let gram = g.to_bnf();
    let mut got: Vec<(String, Result<String, bnf::Error>)> = vec![];
    for e in 0..ENTRY.len() {
        got.push((ENTRY[e].into(), entry(e, &gram, 5, |_, _| true)));
    }
    got.push(("RandomWalk".into(), gram.generate_seeded_with_strategy(&mut RandomWalk::from_seed([0; 32]))));
    got.push(("RandomWalk::default".into(), gram.generate_seeded_with_strategy(&mut RandomWalk::default())));
    for d in [0, 1, 100, usize::MAX] {
        got.push((format!("DepthBounded({d})"), gram.generate_seeded_with_strategy(&mut DepthBounded::from_seed(d, [0; 32]))));
    }
    got.push(("CoverageGuided".into(), gram.generate_seeded_with_strategy(&mut CoverageGuided::new())));
    for (r, n) in [(100, 1), (0, 0), (u32::MAX, u32::MAX)] {
        got.push((format!("Weighted({r},{n})"), gram.generate_seeded_with_strategy(&mut Weighted::new(r, n))));
    }
    for (how, r) in got {
        cx.states += 1;
        cx.transitions += 1;
        cx.traces += 1;
        match r {
            Ok(s) if s == want => {}
            Ok(s) => return Err(format!("{how} generated {} characters {:?}, expected {} characters {:?}", s.chars().count(), clip(&s), want.chars().count(), clip(want))),
            Err(e) => return Err(format!("{how} failed: {e}")),
        }
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 60 { s.chars().take(60).collect::<String>() + "…" } else { s.into() }
}

fn scaled_stages(tier: Tier) -> Vec<Stage> {
    let max = tier.pick(600, 1025);
    let near = scaled(0, tier.pick(135, 270));
    let far = scaled(tier.pick(135, 270) + 1, max);
    vec![scaled_stage("scaled-derivations", tier.pick(135, 270), near), scaled_stage("far-scaled-derivations", max, far).soft()]
}
fn scaled_stage(name: &'static str, max: usize, v: Vec<(String, Rg, String)>) -> Stage {
    stage(name, format!("one derivation scaled to {max} levels, symbols, characters or productions; every entry point and strategy"), v.len() as u64, move |i, cx| {
        let (what, g, want) = &v[i as usize];
        scaled_case(g, want, cx).map_err(|e| format!("[{what}] {e}"))
    })
}

/// Long recursive derivations: an arbitrary strategy takes the recursive alternative n times.
struct Fixed {
    left: usize,
    max_depth: usize,
}
impl GenerationStrategy for Fixed {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.max_depth = self.max_depth.max(depth);
        if self.left > 0 {
            self.left -= 1;
            p.rhs_iter().next()
        } else {
            p.rhs_iter().last()
        }
    }
}

fn recursion_stage(tier: Tier) -> Stage {
    let max = tier.pick(1500u64, 4000);
    stage("long-recursions", format!("left, right and central recursion taken 0..{max} times by an arbitrary strategy"), max * 3, move |i, cx| {
        let n = (i / 3) as usize;
        let (alts, want) = match i % 3 {
            0 => (vec![vec![N(0), T(0)], vec![T(1)]], "b".to_string() + &"a ".repeat(n)),
            1 => (vec![vec![T(0), N(0)], vec![T(1)]], "a ".repeat(n) + "b"),
            _ => (vec![vec![T(0), N(0), T(1)], vec![T(1), T(0)]], "a ".repeat(n) + "ba " + &"b".repeat(n)),
        };
        let g = Rg { tn: strs(&["a ", "b"]), nn: strs(&["S"]), prods: vec![(0, alts)] };
        let mut st = Fixed { left: n, max_depth: 0 };
        let r = g.to_bnf().generate_seeded_with_strategy(&mut st);
        cx.states += 1;
        cx.transitions += n as u64;
        cx.traces += 1;
        match r {
            Ok(s) if s == want => Ok(()),
            Ok(s) => Err(format!("{} recursion {n} times generated {} bytes {:?}, expected {} bytes", g.show(), s.len(), clip(&s), want.len())),
            Err(e) => Err(format!("{} recursion {n} times failed: {e}", g.show())),
        }
    })
}

/// One derivation, odd spellings: the sentence is exactly the terminals, an undefined name stands
/// for itself in angle brackets.
fn spelling_case(w: &str, all: bool, cx: &mut Cx) -> Res {
    let one = |rhs: Vec<Sym>, tn: &[&str], nn: &[&str], more: Vec<(usize, Vec<Vec<Sym>>)>| {
        let mut prods = vec![(0, vec![rhs])];
        prods.extend(more);
        Rg { tn: strs(tn), nn: strs(nn), prods }
    };
    let mut cases = vec![
        (one(vec![T(0), T(1), T(0)], &["x", w], &["S"], vec![]), format!("x{w}x")),
        (one(vec![T(0)], &[w], &["S"], vec![]), w.to_string()),
        (one(vec![T(0), T(0)], &[w], &["S"], vec![]), format!("{w}{w}")),
    ];
    if w != "S" {
        cases.push((one(vec![N(1), T(0)], &["x", w], &["S", w], vec![(1, vec![vec![T(1), T(0)]])]), format!("{w}xx")));
    }
    for (g, want) in cases {
        let gram = g.to_bnf();
        for e in if all { 0..ENTRY.len() } else { 2..3 } {
            cx.states += 1;
            cx.transitions += 1;
            match entry(e, &gram, 7, |_, _| true) {
                Ok(s) if s == want => cx.traces += 1,
                r => return Err(format!("{}: {} gives {r:?}, the only sentence is {want:?}", g.show(), ENTRY[e])),
            }
        }
    }
    if w != "S" {
        // an undefined name next to an alternative that ends
        let g = Rg { tn: strs(&["x", "end"]), nn: strs(&["S", w]), prods: vec![(0, vec![vec![T(1)], vec![T(0), N(1), T(0)], vec![N(1)]])] };
        let gram = g.to_bnf();
        let want = ["end".to_string(), format!("x<{w}>x"), format!("<{w}>")];
        let mut got = vec![];
        every(2, 10, |script| {
            let mut any = Any::new(script, false);
            cx.states += 1;
            cx.transitions += 1;
            got.push(gram.generate_seeded_with_strategy(&mut any).map_err(|e| format!("{}: {e}", g.show()))?);
            Ok(())
        })?;
        got.sort();
        let mut sorted = want.clone();
        sorted.sort();
        if got != sorted {
            return Err(format!("{}: the choices give {got:?}, expected {sorted:?}", g.show()));
        }
        cx.traces += 3;
        if all {
            for seed in 0..6 {
                for e in 0..ENTRY.len() {
                    cx.transitions += 1;
                    let s = entry(e, &gram, seed, |_, _| true).map_err(|e| format!("{}: {e}", g.show()))?;
                    if !want.contains(&s) {
                        return Err(format!("{}: {} gives {s:?}, the sentences are {want:?}", g.show(), ENTRY[e]));
                    }
                }
            }
        }
    }
    Ok(())
}

fn spelling_stages() -> Vec<Stage> {
    let words: Vec<String> = crate::odd::confusable().into_iter().chain(crate::odd::ODD.iter().map(|s| s.to_string())).collect();
    let k = words.len() as u64;
    vec![
        stage("odd-spellings", format!("all pairs of {k} odd spellings joined, as terminal, as undefined and as defined name; every entry point"), k * k, move |mut i, cx| {
            let a = &words[digit(&mut i, k) as usize];
            let b = &words[digit(&mut i, k) as usize];
            spelling_case(&format!("{a}{b}"), true, cx)
        }),
        {
            let words = crate::odd::escapes();
            stage("escape-spellings", format!("{} spellings that look like an escape, reference or placeholder, as terminal, as undefined and as defined name; every entry point", words.len()), words.len() as u64, move |i, cx| {
                let w = &words[i as usize];
                spelling_case(w, true, cx)?;
                spelling_case(&format!("a{w}b"), false, cx)?;
                spelling_case(&format!("{w}{w}"), false, cx)
            })
        },
        stage("every-character", "every Unicode character in a terminal, an undefined and a defined name", 0x110000 / 256, |i, cx| {
            for c in (i * 256..(i + 1) * 256).filter_map(|c| char::from_u32(c as u32)) {
                spelling_case(&c.to_string(), false, cx)?;
                spelling_case(&format!("a{c}b"), false, cx)?;
            }
            Ok(())
        }),
    ]
}

pub fn c12(tier: Tier) -> Vec<Stage> {
    let cap = tier.pick(6, 8);
    let mut out = spelling_stages();
    out.extend([
        recursion_stage(tier),
        on_universe(with_undefined(), move |g, cx| sound(g, cap, cx)),
        on_universe(small_split(), move |g, cx| sound(g, cap, cx)),
        on_universe(tier.pick(three(1), three(2)), move |g, cx| sound(g, cap, cx)),
        on_universe(small(), move |g, cx| sound(g, cap, cx)),
    ]);
    out.push(bare(tier, move |g, cx| sound(g, cap, cx)));
    out.push(huge_derivations(tier));
    out.extend(scaled_stages(tier));
    out.push(strangers(tier));
    out
}

/// Productions that define a terminal define no symbol: with any number of them, spelled like any
/// symbol, generation makes the same choices and gives the same results.
fn strangers(tier: Tier) -> Stage {
    let u = with_undefined();
    let cap = tier.pick(7, 9);
    stage("terminal-left-hand-sides", format!("productions with a terminal spelled like each symbol on the left, second and last: same choices offered, same calls, same results; {}", u.bounds()), u.count(), move |i, cx| {
        let g = u.get(i);
        let gram = g.to_bnf();
        let extra = |k: usize| {
            g.nn.iter().chain(&g.tn).map(move |n| {
                let t = |s: &str| Term::Terminal(s.into());
                let e = if k == 0 { vec![t("wrong")] } else { vec![Term::Nonterminal(n.clone()), t("wrong")] };
                Production::from_parts(t(n), vec![Expression::from_parts(e), Expression::from_parts(vec![t("also wrong")])])
            })
        };
        let mut ps: Vec<Production> = gram.productions_iter().cloned().collect();
        if ps.is_empty() {
            return Ok(());
        }
        ps.splice(1..1, extra(0));
        ps.extend(extra(1));
        let more = Grammar::from_parts(ps);
        every(cap, 3000, |script| {
            let go = |gram: &Grammar| {
                let log: Rc<RefCell<Vec<Ev>>> = Rc::default();
                let mut any = Any { script: script.clone(), log: Rc::clone(&log), keep: true };
                let l2 = Rc::clone(&log);
                let r = gram.generate_seeded_callback_with_strategy(
                    move |nt, v| {
                        l2.borrow_mut().push(Ev::Call { nt: nt.into(), value: v.into(), ok: true });
                        true
                    },
                    &mut any,
                );
                (r.map_err(|e| e.to_string()), log.take())
            };
            let plain = go(&gram);
            script.rewind();
            let with = go(&more);
            cx.states += 1;
            cx.transitions += plain.1.len() as u64;
            cx.traces += 1;
            if plain != with {
                return Err(format!("{}: gives {plain:?}; with productions for terminals spelled like its symbols {with:?}", g.show()));
            }
            Ok(())
        })?;
        Ok(())
    })
}

// ---------------------------------------------------------------- exact distributions of choices

pub fn prod(alts: &[&[Sym]], lhs: &str) -> Production {
    prod_named(alts, lhs, "other")
}
/// N(0) is the left-hand side itself, N(1) some other symbol, T(i) a terminal.
fn prod_named(alts: &[&[Sym]], lhs: &str, other: &str) -> Production {
    let term = |s: &Sym| match s {
        N(0) => Term::Nonterminal(lhs.into()),
        N(_) => Term::Nonterminal(other.into()),
        T(0) => Term::Terminal("t".into()),
        T(1) => Term::Terminal(lhs.into()),
        T(_) => Term::Terminal(String::new()),
    };
    Production::from_parts(
        Term::Nonterminal(lhs.into()),
        alts.iter().map(|a| Expression::from_parts(a.iter().map(term).collect())).collect(),
    )
}

type Outcomes = BTreeMap<Vec<usize>, f64>;

enum Src {
    Grid,
    Residue,
}

/// All outcomes of a sequence of choices, with their probability over equally spaced draws.
fn outcomes<S: GenerationStrategy>(
    mk: &dyn Fn() -> S,
    steps: &[(Production, usize)],
    units: &dyn Fn(usize) -> usize,
    src: &Src,
    before: &dyn Fn(&mut S, usize),
    max_runs: u64,
) -> Result<Option<(Outcomes, u64)>, String> {
    let mut out = Outcomes::new();
    let mut runs = 0;
    let mut many = false;
    let done = every(usize::MAX, max_runs, |script| {
        let mut st = mk();
        let mut seq = vec![];
        for (k, (p, depth)) in steps.iter().enumerate() {
            let m = units(k);
            let s2 = script.clone();
            let before_draws = script.taken().len();
            let residue = matches!(src, Src::Residue);
            before(&mut st, k);
            let mut asked = 0;
            rand::mc_oracle::set(Some(Box::new(move |bits| {
                asked += 1;
                if asked > 1 {
                    // more than one draw in a choice: not decided here
                    s2.decide(1);
                    return None;
                }
                let d = s2.decide(m).unwrap_or(0);
                Some(if residue { d as u64 } else { grid(d, m, bits) })
            })));
            let _o = Oracle;
            let e = st.choose(p, *depth);
            if script.taken().len() > before_draws + 1 {
                many = true;
                return Err(String::new());
            }
            let Some(e) = e else { return Err(format!("choice {k} after {seq:?}: nothing chosen")) };
            let Some(i) = index_of(p, e) else { return Err(format!("choice {k} after {seq:?}: not one of the alternatives")) };
            seq.push(i);
        }
        let w: f64 = script.taken().iter().map(|(_, n)| 1.0 / *n as f64).product();
        *out.entry(seq).or_default() += w;
        runs += 1;
        Ok(())
    });
    if many {
        return Ok(None);
    }
    if !done? {
        return Ok(None);
    }
    Ok(Some((out, runs)))
}

/// Is the first choice decided by the high end of its draw (so that equally spaced draws are
/// representative)?
fn high_decides<S: GenerationStrategy>(mk: &dyn Fn() -> S, step: &(Production, usize), before: &dyn Fn(&mut S, usize)) -> bool {
    let at = |v: u64| {
        let mut st = mk();
        before(&mut st, 0);
        let mut asked = 0;
        rand::mc_oracle::set(Some(Box::new(move |bits| {
            asked += 1;
            (asked == 1).then_some(if bits == 32 { v >> 32 ^ v & 0xffff } else { v })
        })));
        let _o = Oracle;
        st.choose(&step.0, step.1).and_then(|e| index_of(&step.0, e))
    };
    let same = (0..32u64).filter(|h| {
        let high = (h << 59) | 0x02c6_1f00_0000_0000;
        (1..16u64).all(|low| at(high ^ (low * 0xb_7924_2493 & 0xf_ffff_ffff)) == at(high))
    });
    same.count() >= 30
}

/// Decide that the joint distribution of `steps` is the product of `want(history)`.
#[allow(clippy::too_many_arguments)]
fn distribution<S: GenerationStrategy>(
    mk: &dyn Fn() -> S,
    reseeded: &dyn Fn(u64) -> S,
    steps: &[(Production, usize)],
    units: &dyn Fn(usize) -> usize,
    want: &dyn Fn(&[usize]) -> Vec<f64>,
    before: &dyn Fn(&mut S, usize),
    tol: f64,
    cx: &mut Cx,
) -> Res {
    let mut expected = Outcomes::new();
    let mut front = vec![(vec![], 1.0)];
    for _ in 0..steps.len() {
        let mut next = vec![];
        for (h, p) in front {
            for (i, q) in want(&h).into_iter().enumerate() {
                if q > 0.0 {
                    let mut h2: Vec<usize> = h.clone();
                    h2.push(i);
                    next.push((h2, p * q));
                }
            }
        }
        front = next;
    }
    for (h, p) in front {
        expected.insert(h, p);
    }
    let impossible = |o: &Outcomes| o.keys().find(|k| !expected.contains_key(*k)).cloned();
    let differs = |o: &Outcomes, tol: f64| {
        expected.iter().find_map(|(k, p)| {
            let q = o.get(k).copied().unwrap_or(0.0);
            ((p - q).abs() > tol).then(|| format!("choices {k:?} have probability {q:.6}, expected {p:.6}"))
        })
    };
    let mut first = None;
    let mut single = true;
    for src in [Src::Grid, Src::Residue] {
        match outcomes(mk, steps, units, &src, before, 300_000)? {
            Some((o, runs)) => {
                cx.states += runs;
                cx.transitions += runs * steps.len() as u64;
                if let Some(k) = impossible(&o) {
                    return Err(format!("choices {k:?} must never happen, but do"));
                }
                match differs(&o, tol) {
                    None => {
                        cx.traces += runs;
                        return Ok(());
                    }
                    Some(e) => {
                        first.get_or_insert(e);
                    }
                }
            }
            None => single = false,
        }
    }
    if single && high_decides(mk, &steps[0], before) {
        return Err(first.unwrap_or_default());
    }
    // a choice that is more than one draw, or made from the low end of one: count outcomes over a
    // fixed range of seeds
    let n = 10_000u64;
    let mut o = Outcomes::new();
    for s in 0..n {
        let mut st = reseeded(s);
        let mut seq = vec![];
        for (k, (p, depth)) in steps.iter().enumerate() {
            before(&mut st, k);
            let e = st.choose(p, *depth).ok_or("nothing chosen")?;
            seq.push(index_of(p, e).ok_or("not one of the alternatives")?);
        }
        *o.entry(seq).or_default() += 1.0 / n as f64;
    }
    cx.states += n;
    cx.bump("decided_by_seed_range", 1);
    if let Some(k) = impossible(&o) {
        return Err(format!("choices {k:?} must never happen, but do"));
    }
    let bad = expected.iter().find_map(|(k, p)| {
        let q = o.get(k).copied().unwrap_or(0.0);
        ((p - q).abs() > 7.0 * (p * (1.0 - p) / n as f64).sqrt() + tol)
            .then(|| format!("choices {k:?} have frequency {q:.6} over {n} seeds, expected {p:.6}"))
    });
    bad.map_or(Ok(()), Err)
}

/// One choice as a function of its draw: the exact share of the draws that leads to each
/// alternative. Decided where the choice is a step function of one draw (the usual scaling of a
/// draw to a range) or depends on few of its bits; other ways of choosing are left to
/// `distribution`.
fn exact_shares<S: GenerationStrategy>(mk: &dyn Fn() -> S, p: &Production, depth: usize, want: &[f64], cx: &mut Cx) -> Res {
    let draw = Rc::new(Cell::new(0u64));
    let asked = Rc::new(Cell::new((0u32, 0u32)));
    let (d2, a2) = (Rc::clone(&draw), Rc::clone(&asked));
    rand::mc_oracle::set(Some(Box::new(move |bits| {
        let (n, b) = a2.get();
        a2.set((n + 1, if n == 0 { bits } else { b }));
        match n {
            0 => Some(if bits == 32 { d2.get() >> 32 } else { d2.get() }),
            1 => Some(0),
            _ => None,
        }
    })));
    let _o = Oracle;
    let mut calls = 0u64;
    let mut at = |v: u64| -> Result<usize, String> {
        draw.set(v);
        asked.set((0, 0));
        calls += 1;
        let e = mk().choose(p, depth).map(|e| index_of(p, e));
        e.flatten().ok_or_else(|| format!("draw {v:#x}: nothing chosen"))
    };
    let _ = at(0)?;
    let (n, bits) = asked.get();
    let mut share = vec![0.0f64; want.len()];
    let mut tol = 0.0;
    let mut decided = n == 0;
    if n == 0 {
        // no draw at all: one alternative for sure
        share[at(0)?] = 1.0;
        tol = 1e-9;
    } else {
        const M: u64 = 64;
        let mut one = true;
        let mut probe: Vec<usize> = vec![];
        for k in 0..M {
            probe.push(at((u64::MAX / M) * k + u64::MAX / (2 * M))?);
            one &= asked.get().0 == 1;
        }
        // the high end of the draw decides
        let mut apart = 0;
        for k in 0..M {
            let low = (k + 1).wrapping_mul(0x9e_3779_b97f) & 0xff_ffff_ffff;
            apart += usize::from(at(((u64::MAX / M) * k + u64::MAX / (2 * M)) ^ low)? != probe[k as usize]);
        }
        if one && apart <= 2 && probe.windows(2).all(|w| w[0] <= w[1]) && at(0)? <= probe[0] && at(u64::MAX)? >= probe[M as usize - 1] {
            let step = 64 - bits;
            let mut from = 0u128;
            let end = 1u128 << bits;
            for k in 0..want.len() {
                // the smallest draw that leads beyond alternative k
                let (mut lo, mut hi) = (from, end);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    // some ways of choosing draw again for single values of the draw; those next
                    // to it then decide
                    let mut e = at((mid as u64) << step)?;
                    for next in 1..6 {
                        if asked.get().0 == 1 || mid + next >= end {
                            break;
                        }
                        e = at(((mid + next) as u64) << step)?;
                    }
                    if e > k { hi = mid } else { lo = mid + 1 }
                }
                share[k] = (lo - from) as f64 / end as f64;
                if lo > from {
                    // inside a step the draw alone decides
                    at((((lo + from) / 2) as u64) << step)?;
                    one &= asked.get().0 == 1;
                }
                // really a step: draws on either side of it, with all kinds of low ends, agree
                for j in 20..bits {
                    let noise = 0xb_55a3u128 + (u128::from(j) << 8);
                    let (below, above) = (lo.checked_sub((1 << j) + noise), lo + (1 << j) + noise);
                    if let Some(v) = below.filter(|v| *v >= from) {
                        one &= at((v as u64) << step)? == k;
                    }
                    if above < end {
                        one &= at((above as u64) << step)? > k;
                    }
                }
                from = lo;
            }
            tol = if bits == 32 { 16.0 / 4294967296.0 } else { 1e-12 };
            decided = one;
            cx.bump("exact_by_boundaries", u64::from(one));
        } else if one {
            for few in [8u32, 16] {
                let mask = (1u64 << few) - 1;
                let place = |x: u64, hi: u64| if bits == 32 { ((hi & !mask | x) & 0xffff_ffff) << 32 } else { hi & !mask | x };
                let his = [0x5a5a_5a5a_5a5a_5a5au64, 0xffff_ffff_ffff_ffff, 0x0123_4567_89ab_cdef, 0x8000_0000_8000_0000];
                let mut count = vec![0u64; want.len()];
                let mut periodic = true;
                'x: for x in 0..=mask {
                    let e = at(place(x, 0))?;
                    for hi in his {
                        if at(place(x, hi))? != e {
                            periodic = false;
                            break 'x;
                        }
                    }
                    count[e] += 1;
                }
                if periodic {
                    share = count.iter().map(|c| *c as f64 / (mask + 1) as f64).collect();
                    tol = 1e-6;
                    decided = true;
                    cx.bump("exact_by_few_bits", 1);
                    break;
                }
            }
        }
    }
    cx.states += calls;
    cx.transitions += calls;
    if !decided {
        cx.bump("left_to_distribution", 1);
        return Ok(());
    }
    cx.traces += 1;
    for (k, (q, w)) in share.iter().zip(want).enumerate() {
        if (q - w).abs() > tol || (*w == 0.0 && *q > 0.0) {
            return Err(format!("alternative {k} has exactly the share {q:e} of the draws, expected {w:e}"));
        }
    }
    Ok(())
}

fn seed_of(s: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&s.to_le_bytes());
    b[8] = 0x5a;
    b
}

fn uniform(n: usize) -> Vec<f64> {
    vec![1.0 / n as f64; n]
}

const DEPTHS: [usize; 14] = [0, 1, 2, 3, 5, 8, 16, 17, 32, 64, 100, 255, 1000, usize::MAX];

// ---------------------------------------------------------------- C13

/// What the model says can be generated, and with which probability.
fn model_sentences(g: &Rg, cap: usize, max_runs: u64) -> Option<(BTreeMap<String, f64>, bool)> {
    let mut out = BTreeMap::new();
    let mut complete = true;
    let done = every(cap, max_runs, |script| {
        let m = Model::new(g, script, 0, false);
        match m.eval(g.start(), 0) {
            Ok(s) => {
                let w: f64 = script.taken().iter().map(|(_, n)| 1.0 / *n as f64).product();
                *out.entry(s).or_insert(0.0) += w;
            }
            Err(_) => complete = false,
        }
        Ok(())
    })
    .ok()?;
    done.then_some((out, complete))
}

/// All sentences with at most `cap` expansions are generated, and nothing is withheld.
fn complete(g: &Rg, cap: usize, cx: &mut Cx) -> Res {
    if !g.reachable(g.start()).is_subset(&generable(g)) {
        return Ok(());
    }
    let Some((want, all)) = model_sentences(g, cap, 4000) else { return Ok(()) };
    let gram = g.to_bnf();
    let mut got = BTreeSet::new();
    every(cap, u64::MAX, |script| {
        let mut any = Any::new(script, true);
        let r = gram.generate_seeded_with_strategy(&mut any);
        cx.states += 1;
        for e in any.log.borrow().iter() {
            cx.transitions += 1;
            if let Ev::Choose { nt, alts, .. } = e {
                let id = g.nn.iter().position(|n| n == nt).ok_or_else(|| format!("choice for unknown symbol {nt}"))?;
                let mut want: Vec<Vec<Term>> = g.alts_of(id).iter().map(|a| a.iter().map(|s| g.term(*s)).collect()).collect();
                let mut alts = alts.clone();
                want.sort();
                alts.sort();
                if alts != want {
                    return Err(format!("for <{nt}> the strategy is offered {alts:?}, the grammar has {want:?}"));
                }
            }
        }
        if let Ok(s) = r
            && !script.aborted()
        {
            cx.traces += 1;
            got.insert(s);
        }
        Ok(())
    })?;
    if let Some((s, _)) = want.iter().find(|(s, _)| !got.contains(*s)) {
        return Err(format!("no choices of an arbitrary strategy generate {s:?}"));
    }
    // the default random walk: all draws, probabilities
    macro_rules! walk {
        ($mk:expr, $how:expr) => {{
            let mut got: BTreeMap<String, f64> = BTreeMap::new();
            let mut many = false;
            every(cap, u64::MAX, |script| {
                let mut st = Driven { inner: $mk, script: script.clone(), units: len_units, log: Rc::default() };
                let r = gram.generate_seeded_with_strategy(&mut st);
                cx.states += 1;
                cx.transitions += script.taken().len() as u64;
                many |= script.multi();
                if script.aborted() {
                    return Ok(());
                }
                if let Ok(s) = r {
                    cx.traces += 1;
                    *got.entry(s).or_insert(0.0) += script.taken().iter().map(|(_, n)| 1.0 / *n as f64).product::<f64>();
                }
                Ok(())
            })?;
            for (s, p) in &want {
                let q = got.get(s).copied().unwrap_or(0.0);
                if q == 0.0 && !many {
                    return Err(format!("no random choices of {} generate {s:?}", $how));
                }
                if all && !many && (p - q).abs() > 1e-9 {
                    return Err(format!("{} generates {s:?} with probability {q}, expected {p}", $how));
                }
            }
        }};
    }
    walk!(RandomWalk::from_seed([9; 32]), "RandomWalk");
    walk!(DepthBounded::from_seed(usize::MAX, [9; 32]), "DepthBounded without a bound");
    if all && single_draw() {
        let m = lcm_alts(g);
        for e in 0..ENTRY.len() {
            let mut got: BTreeMap<String, f64> = BTreeMap::new();
            every(usize::MAX, 4000, |script| {
                let r = {
                    let _o = oracle(script, m, true);
                    entry(e, &gram, 3, |_, _| true)
                };
                cx.states += 1;
                cx.transitions += script.taken().len() as u64;
                let s = r.map_err(|e| format!("generation failed: {e}"))?;
                cx.traces += 1;
                *got.entry(s).or_insert(0.0) += (1.0 / m as f64).powi(script.taken().len() as i32);
                Ok(())
            })?;
            let total: f64 = got.values().sum();
            if (total - 1.0).abs() > 1e-9 {
                continue; // not all executions were explored
            }
            for (s, p) in &want {
                let q = got.get(s).copied().unwrap_or(0.0);
                if (p - q).abs() > 1e-9 {
                    return Err(format!("{} generates {s:?} with probability {q}, expected {p}", ENTRY[e]));
                }
            }
        }
    }
    cx.bump("sentences", want.len() as u64);
    cx.sample(|| format!("{} all of {:?}", g.show(), want.keys().take(4).collect::<Vec<_>>()));
    Ok(())
}

/// All shapes of alternatives that any strategy distinguishes (or should not).
const SHAPES: [&[Sym]; 7] = [&[T(0)], &[N(0)], &[], &[T(0), N(0)], &[N(1)], &[T(1)], &[N(0), N(0)]];

fn shaped(ids: &[usize], lhs: &str) -> Production {
    let alts: Vec<&[Sym]> = ids.iter().map(|i| SHAPES[*i]).collect();
    prod(&alts, lhs)
}

fn of_len(n: usize, lhs: &str) -> Production {
    let ids: Vec<usize> = (0..n).map(|i| i % SHAPES.len()).collect();
    shaped(&ids, lhs)
}

fn mk_walk(s: u64) -> RandomWalk {
    RandomWalk::from_seed(seed_of(s))
}

fn uniform_stages(tier: Tier) -> Vec<Stage> {
    let ns = sizes(tier.pick(260, 600), tier.pick(1100, 4100));
    let nmax = ns.len();
    let mut out = vec![];
    out.push(stage("walk-uniform", format!("{nmax} numbers of alternatives up to {}, 14 depths: one choice, all outcomes", ns[nmax - 1]), (nmax * DEPTHS.len()) as u64, move |i, cx| {
        let n = ns[i as usize % nmax];
        let depth = DEPTHS[i as usize / nmax];
        let steps = [(of_len(n, "s"), depth)];
        distribution(&|| mk_walk(1), &mk_walk, &steps, &|_| n, &|_| uniform(n), &|_, _| (), 1e-9, cx)
            .map_err(|e| format!("RandomWalk, {n} alternatives, depth {depth}: {e}"))
    }));
    let shapes = Seqs { radix: SHAPES.len() as u64, lo: 1, hi: tier.pick(4, 5) };
    out.push(stage("walk-shapes", "every combination of 1..4 alternative shapes (recursive, terminal, empty, ...), twice in a row", shapes.count(), move |i, cx| {
        let p = shaped(&shapes.get(i), "s");
        let n = p.len();
        let steps = [(p.clone(), 0), (p.clone(), 3)];
        distribution(&|| mk_walk(1), &mk_walk, &steps, &|_| n, &|_| uniform(n), &|_, _| (), 1e-9, cx)
            .map_err(|e| format!("RandomWalk, {p}: {e}"))
    }));
    // independence: sequences of choices from different productions and depths
    let seqs = Seqs { radix: 4, lo: 2, hi: tier.pick(5, 6) };
    out.push(stage("walk-independent", "sequences of 2..5 choices among productions of 1..4 alternatives, all joint outcomes", seqs.count(), move |i, cx| {
        let ns: Vec<usize> = seqs.get(i).iter().map(|k| k + 1).collect();
        let steps: Vec<(Production, usize)> = ns.iter().enumerate().map(|(k, n)| (of_len(*n, if k % 2 == 0 { "s" } else { "q" }), k)).collect();
        distribution(&|| mk_walk(1), &mk_walk, &steps, &|k| ns[k], &|h| uniform(ns[h.len()]), &|_, _| (), 1e-9, cx)
            .map_err(|e| format!("RandomWalk, successive choices of {ns:?}: {e}"))
    }));
    let top = tier.pick(16u64, 40);
    out.push(stage("walk-repeats", format!("2..{top} alternatives: the same production twice, three times, with another (or an equal) one between; all joint outcomes"), (top - 1) * 5, move |i, cx| {
        let n = (i / 5 + 2) as usize;
        let p = of_len(n, "s");
        let q = of_len(n.min(3), "q");
        let steps: Vec<(Production, usize)> = match i % 5 {
            0 => vec![(p.clone(), 0), (p, 0)],
            1 => vec![(p.clone(), 0), (p.clone(), 1), (p, 2)],
            2 => vec![(p.clone(), 0), (q, 0), (p, 0)],
            3 => vec![(p.clone(), 2), (of_len(n, "q"), 2)],
            _ => vec![(q.clone(), 1), (p.clone(), 1), (q, 1), (p, 0)],
        };
        let ns: Vec<usize> = steps.iter().map(|(p, _)| p.len()).collect();
        distribution(&|| mk_walk(1), &mk_walk, &steps, &|k| ns[k], &|h| uniform(ns[h.len()]), &|_, _| (), 1e-9, cx)
            .map_err(|e| format!("RandomWalk, successive choices of {ns:?}: {e}"))
    }));
    out
}

/// n alternatives, spread over several productions: each one is reachable.
fn reach_stage(tier: Tier) -> Stage {
    let ns = sizes(tier.pick(70, 200), tier.pick(520, 1100));
    stage("many-alternatives", format!("{} numbers of alternatives up to {} in one production, one each, or in two halves: each alternative generated", ns.len(), ns[ns.len() - 1]), ns.len() as u64 * 3, move |i, cx| {
        let n = ns[(i / 3) as usize];
        let tn: Vec<String> = (0..n).map(|k| format!("w{k};")).collect();
        let alts: Vec<Vec<Sym>> = (0..n).map(|k| vec![T(k)]).collect();
        let mut prods = match i % 3 {
            0 => vec![(1, alts)],
            1 => alts.into_iter().flat_map(|a| [(1, vec![a]), (2, vec![vec![T(0)]])]).collect(),
            _ => vec![(1, alts[..n / 2].to_vec()), (2, vec![vec![T(0)]]), (1, alts[n / 2..].to_vec())],
        };
        prods.insert(0, (0, vec![vec![N(1)]]));
        let g = Rg { tn: tn.clone(), nn: strs(&["S", "A", "B"]), prods };
        let gram = g.to_bnf();
        let want: BTreeSet<String> = tn.into_iter().collect();
        let mut sets: Vec<(&str, BTreeSet<String>)> = vec![];
        let mut got = BTreeSet::new();
        every(4, 10_000, |script| {
            let mut any = Any::new(script, false);
            let r = gram.generate_seeded_with_strategy(&mut any);
            cx.states += 1;
            got.extend(r.ok());
            Ok(())
        })?;
        sets.push(("an arbitrary strategy", got));
        if single_draw() {
            let mut got = BTreeSet::new();
            every(4, 10_000, |script| {
                let mut st = Driven { inner: mk_walk(2), script: script.clone(), units: len_units, log: Rc::default() };
                let r = gram.generate_seeded_with_strategy(&mut st);
                cx.states += 1;
                got.extend(r.ok());
                Ok(())
            })?;
            sets.push(("RandomWalk", got));
            let mut got = BTreeSet::new();
            // the symbol S has one alternative; only the draw for A matters
            let skip = usize::from(draws_for_one());
            every(4, 60_000, |script| {
                let s2 = script.clone();
                let mut left = skip;
                rand::mc_oracle::set(Some(Box::new(move |bits| {
                    if left > 0 {
                        left -= 1;
                        return Some(grid(0, n, bits));
                    }
                    match s2.decide(n) {
                        Some(k) => Some(grid(k, n, bits)),
                        None => std::panic::resume_unwind(Box::new(OutOfChoices)),
                    }
                })));
                let _o = Oracle;
                let r = within(|| gram.generate());
                cx.states += 1;
                got.extend(r.and_then(Result::ok));
                Ok(())
            })?;
            sets.push(("generate()", got));
        }
        cx.transitions += n as u64;
        cx.traces += sets.len() as u64;
        for (how, got) in sets {
            if got != want {
                let miss: Vec<&String> = want.difference(&got).collect();
                return Err(format!("{how}, {n} alternatives: never generates {miss:?}"));
            }
        }
        Ok(())
    })
}

/// What is not seeded differs from call to call: 16^12 sentences, so that even a few coincidences
/// mean that most of them are out of reach.
fn varies_stage(tier: Tier) -> Stage {
    let n = tier.pick(6000usize, 40_000);
    stage("unseeded-varies", format!("{n} calls or new strategies of 3 kinds: sentences of 12 letters out of 16 all differ, every letter comes at every place"), 3, move |i, cx| {
        let text = format!("<s> ::={}\n<l> ::= {}", " <l>".repeat(12), (0..16).map(|k| format!("'{}'", (b'a' + k) as char)).collect::<Vec<_>>().join(" | "));
        let gram: Grammar = text.parse().map_err(|e| format!("{e}"))?;
        let how = ["generate", "generate_callback", "RandomWalk::default"][i as usize];
        let mut seen = BTreeSet::new();
        let mut places = vec![BTreeSet::new(); 12];
        let mut again = 0;
        for _ in 0..n {
            let s = match i {
                0 => gram.generate(),
                1 => gram.generate_callback(|_, _| true),
                _ => gram.generate_seeded_with_strategy(&mut RandomWalk::default()),
            }
            .map_err(|e| format!("{how}: {e}"))?;
            cx.states += 1;
            cx.transitions += 1;
            for (k, c) in s.chars().enumerate() {
                places.get_mut(k).ok_or("too long")?.insert(c);
            }
            if !seen.insert(s.clone()) {
                again += 1;
                if again >= 2 {
                    return Err(format!("{how} generated {s:?} again after {} calls; there are more than 10^11 sentences", seen.len()));
                }
            }
        }
        if let Some((k, p)) = places.iter().enumerate().find(|(_, p)| p.len() < 16) {
            return Err(format!("{how}: in {n} calls only {p:?} came at place {k}"));
        }
        cx.traces += n as u64;
        Ok(())
    })
}

pub fn c13(tier: Tier) -> Vec<Stage> {
    let cap = tier.pick(6, 8);
    let mut out = uniform_stages(tier);
    out.push(varies_stage(tier));
    let ns = sizes(tier.pick(200, 700), tier.pick(520, 2100));
    out.push(stage("exact-shares", format!("{} numbers of alternatives up to {}: the boundaries between alternatives over all draws", ns.len(), ns[ns.len() - 1]), ns.len() as u64, move |i, cx| {
        let n = ns[i as usize];
        exact_shares(&|| mk_walk(1), &of_len(n, "s"), 0, &uniform(n), cx).map_err(|e| format!("{n} alternatives: {e}"))
    }));
    out.push(reach_stage(tier));
    out.extend(scaled_stages(tier));
    out.push(strangers(tier));
    out.push(on_universe(tier.pick(acyclic(2, 3, 2), acyclic(2, 3, 3)), |g, cx| complete(g, 6, cx)));
    out.push(on_universe(acyclic_split(), |g, cx| complete(g, 6, cx)));
    out.push(on_universe(small_split(), move |g, cx| complete(g, cap, cx)));
    out.push(on_universe(tier.pick(three(1), three(2)), move |g, cx| complete(g, cap, cx)));
    out.push(on_universe(small(), move |g, cx| complete(g, cap - 1, cx)));
    out.push(bare(tier, move |g, cx| complete(g, cap, cx)));
    out.push(huge_uniform(tier));
    out.push(huge_reach(tier));
    out.push(after_many(tier, mk_walk, |p, _| uniform(p.len()), |p, _| p.len()));
    out
}

// ---------------------------------------------------------------- C14

fn fails_cleanly(g: &Rg, cap: usize, cx: &mut Cx) -> Res {
    let gram = g.to_bnf();
    let gen_ok = generable(g);
    let can = !g.prods.is_empty() && gen_ok.contains(&g.start());
    let never_fails = can && g.reachable(g.start()).is_subset(&gen_ok);
    let judge = |r: Result<String, bnf::Error>, how: &str| -> Res {
        match r {
            Ok(s) if !can => Err(format!("{how} generated {s:?} although the first symbol cannot terminate")),
            Err(bnf::Error::GenerateError(_)) if !never_fails => Ok(()),
            Err(bnf::Error::GenerateError(e)) => Err(format!("{how} failed although every symbol can terminate: {e}")),
            Err(e) => Err(format!("{how} returned another kind of error: {e:?}")),
            Ok(_) => Ok(()),
        }
    };
    let mut ok = false;
    every(cap, 3000, |script| {
        let mut any = Any::new(script, false);
        let r = gram.generate_seeded_with_strategy(&mut any);
        cx.states += 1;
        cx.transitions += script.taken().len() as u64;
        if script.aborted() {
            if !can && !could_choose(g) {
                return Err("the strategy is asked although nothing can be generated".into());
            }
            return Ok(());
        }
        cx.traces += 1;
        ok |= r.is_ok();
        judge(r, "generation with an arbitrary strategy")
    })?;
    let m = lcm_alts(g);
    let entries = if drawless_loop(g) { 0 } else { ENTRY.len() };
    for e in 0..entries {
        every(cap.min(3), 60, |script| {
            let _o = oracle(script, m, true);
            let r = within(|| entry(e, &gram, 11, |_, _| true));
            cx.states += 1;
            match r {
                Some(r) => judge(r, ENTRY[e]),
                None => Ok(()),
            }
        })?;
    }
    if ok {
        cx.bump("grammars_generating", 1);
    } else {
        cx.bump("grammars_refused_or_deeper", 1);
    }
    cx.sample(|| format!("{} can terminate: {can}, never fails: {never_fails}", g.show()));
    Ok(())
}

/// Does the library's own termination test (which counts an empty rule as terminating) let the
/// strategy be asked at all?
fn could_choose(g: &Rg) -> bool {
    !g.prods.is_empty() && g.productive().contains(&g.start())
}

/// Chains of dependencies in every order of productions, with dead ends at every place.
fn order_stage(k: usize) -> Stage {
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        perms = perms
            .into_iter()
            .flat_map(|p| (0..k).filter(|x| !p.contains(x)).map(|x| [p.clone(), vec![x]].concat()).collect::<Vec<_>>())
            .collect();
    }
    let perms = Arc::new(perms);
    // kind of each symbol's rule
    let kinds = 6u64;
    let n = perms.len() as u64 * kinds.pow(k as u32);
    stage(
        "dependency-orders",
        format!("{k} symbols in a chain in all {} orders of their productions, 6 kinds of rule per symbol", perms.len()),
        n,
        move |mut i, cx| {
            let perm = &perms[digit(&mut i, perms.len() as u64) as usize];
            let mut rules: Vec<Vec<Vec<Sym>>> = vec![];
            for s in 0..k {
                let next = (s + 1) % k;
                rules.push(match digit(&mut i, 6) {
                    0 => vec![vec![N(next)]],
                    1 => vec![vec![T(0)]],
                    2 => vec![vec![T(0), N(s)]],
                    3 => vec![vec![N(s), N(next)], vec![N(next)]],
                    4 => vec![vec![N(next), N((s + 2) % k)]],
                    _ => vec![vec![N((s + 2) % k)], vec![N(s)]],
                });
            }
            let g = Rg {
                tn: strs(&["t"]),
                nn: (0..k).map(|i| format!("n{i}")).collect(),
                prods: perm.iter().map(|s| (*s, rules[*s].clone())).collect(),
            };
            let gram = g.to_bnf();
            let gen_ok = generable(&g);
            let can = gen_ok.contains(&g.start());
            // one execution decides: always taking the alternative of least height terminates
            let height = heights(&g);
            let mut st = Least { g: &g, height: &height, calls: 0 };
            let r = gram.generate_seeded_with_strategy(&mut st);
            cx.states += 1;
            cx.transitions += st.calls as u64;
            cx.traces += 1;
            match (r, can) {
                (Ok(_), true) => Ok(()),
                (Err(bnf::Error::GenerateError(_)), false) => Ok(()),
                (r, _) => Err(format!("{}first symbol can terminate: {can}; generation returned {r:?}", g.show())),
            }
        },
    )
}

fn heights(g: &Rg) -> Vec<Vec<usize>> {
    let mut h: Vec<usize> = vec![usize::MAX; g.nn.len()];
    let alt_h = |a: &[Sym], h: &Vec<usize>| {
        a.iter()
            .map(|s| match s {
                T(_) => 0,
                N(n) => h[*n],
            })
            .max()
            .unwrap_or(0)
    };
    loop {
        let mut changed = false;
        for (l, a) in g.flat() {
            let x = alt_h(a, &h).saturating_add(1);
            if x < h[l] {
                h[l] = x;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    (0..g.nn.len()).map(|n| g.alts_of(n).iter().map(|a| alt_h(a, &h)).collect()).collect()
}

struct Least<'a> {
    g: &'a Rg,
    height: &'a Vec<Vec<usize>>,
    calls: usize,
}
impl GenerationStrategy for Least<'_> {
    fn choose<'p>(&mut self, p: &'p Production, _: usize) -> Option<&'p Expression> {
        self.calls += 1;
        if self.calls > 5000 {
            return None;
        }
        let Term::Nonterminal(nt) = &p.lhs else { return None };
        let id = self.g.nn.iter().position(|n| n == nt)?;
        // the offered production may list the alternatives in another arrangement
        let alts: Vec<Vec<Term>> = self.g.alts_of(id).iter().map(|a| a.iter().map(|s| self.g.term(*s)).collect()).collect();
        p.rhs_iter().min_by_key(|e| {
            let t: Vec<Term> = e.terms_iter().cloned().collect();
            alts.iter().position(|a| *a == t).map_or(usize::MAX, |k| self.height[id][k])
        })
    }
}

/// Special first left-hand sides and empty grammars.
fn odd_grammars() -> Vec<(Grammar, bool)> {
    let t = |s: &str| Term::Terminal(s.into());
    let n = |s: &str| Term::Nonterminal(s.into());
    let e = |v: Vec<Term>| Expression::from_parts(v);
    let p = |l: Term, v: Vec<Expression>| Production::from_parts(l, v);
    vec![
        (Grammar::new(), false),
        (Grammar::from_parts(vec![]), false),
        (Grammar::from_parts(vec![p(n("s"), vec![])]), false),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![])])]), false),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![n("s")])])]), false),
        (Grammar::from_parts(vec![p(t("s"), vec![e(vec![t("a")])])]), false),
        (Grammar::from_parts(vec![p(t("s"), vec![e(vec![t("a")])]), p(n("s"), vec![e(vec![t("a")])])]), false),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![t("a")])]), p(t("s"), vec![e(vec![t("b")])])]), true),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![t("")])])]), true),
        (Grammar::from_parts(vec![p(n(""), vec![e(vec![t("x")])])]), true),
        (Grammar::from_parts(vec![p(n("s"), vec![]), p(n("s"), vec![e(vec![t("x")])])]), true),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![n("s")])]), p(n("s"), vec![e(vec![t("x")])])]), true),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![n("a")])]), p(n("a"), vec![e(vec![n("a")])]), p(n("a"), vec![e(vec![t("x")])])]), true),
        (Grammar::from_parts(vec![p(n("s"), vec![e(vec![n("a"), n("b")])]), p(n("a"), vec![e(vec![t("x")])]), p(n("b"), vec![e(vec![n("b")])])]), false),
    ]
}

fn odd_stage() -> Stage {
    let n = odd_grammars().len() as u64 * 7;
    stage("odd-first-rules", "empty grammars, terminal or unproductive first left-hand sides; every entry point and strategy", n, move |i, cx| {
        let (g, can) = odd_grammars().swap_remove((i / 7) as usize);
        cx.states += 1;
        cx.transitions += 1;
        let budget = Script::new(2000);
        let r = within(|| {
            let mut k = 0usize;
            let b = budget.clone();
            rand::mc_oracle::set(Some(Box::new(move |bits| {
                k += 1;
                if b.decide(1).is_none() {
                    std::panic::resume_unwind(Box::new(OutOfChoices));
                }
                Some(grid(k % 5, 5, bits))
            })));
            let _o = Oracle;
            match i % 7 {
                0..=3 => entry((i % 7) as usize, &g, 1, |_, _| true),
                4 => g.generate_seeded_with_strategy(&mut DepthBounded::new(3)),
                5 => g.generate_seeded_with_strategy(&mut CoverageGuided::new()),
                _ => g.generate_seeded_with_strategy(&mut Weighted::new(1, 1)),
            }
        });
        match r {
            None => Err(format!("{g}: generation does not come to an end")),
            Some(Ok(s)) if !can => Err(format!("{g}: generated {s:?}")),
            Some(Err(e)) if can => Err(format!("{g}: failed: {e}")),
            Some(Err(bnf::Error::GenerateError(_)) | Ok(_)) => {
                cx.traces += 1;
                Ok(())
            }
            Some(Err(e)) => Err(format!("{g}: another kind of error: {e:?}")),
        }
    })
}

/// Chains of n symbols that end well, in a loop, or nowhere.
fn chain_stage(tier: Tier) -> Stage {
    let max = tier.pick(300u64, 600);
    stage("long-chains", format!("chains of 1..{max} symbols, forwards and backwards, ending in a terminal or in a loop to any earlier symbol"), max * 6, move |i, cx| {
        let n = (i / 6 + 1) as usize;
        let nn: Vec<String> = (0..n).map(|k| format!("n{k}")).collect();
        let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = (0..n - 1).map(|k| (k, vec![vec![N(k + 1)]])).collect();
        let can = i % 3 == 0;
        prods.push((n - 1, vec![vec![match i % 3 {
            0 => T(0),
            1 => N(0),
            _ => N(n / 2),
        }]]));
        if i % 6 >= 3 {
            prods[1..].reverse();
        }
        let g = Rg { tn: strs(&["t"]), nn, prods };
        let r = g.to_bnf().generate_seeded_with_strategy(&mut Fixed { left: 0, max_depth: 0 });
        cx.states += 1;
        cx.transitions += n as u64;
        cx.traces += 1;
        match r {
            Ok(s) if can && s == "t" => Ok(()),
            Err(bnf::Error::GenerateError(_)) if !can => Ok(()),
            r => Err(format!("chain of {n}, can terminate: {can}: {r:?}")),
        }
    })
}

pub fn c14(tier: Tier) -> Vec<Stage> {
    let cap = tier.pick(6, 8);
    let mut out = vec![
        odd_stage(),
        chain_stage(tier),
        recursion_stage(tier),
        order_stage(tier.pick(4, 5)),
        on_universe(small_split(), move |g, cx| fails_cleanly(g, cap, cx)),
        on_universe(tier.pick(three(1), three(2)), move |g, cx| fails_cleanly(g, cap, cx)),
        on_universe(small(), move |g, cx| fails_cleanly(g, cap, cx)),
        huge_derivations(tier),
        bare(tier, move |g, cx| fails_cleanly(g, cap, cx)),
        strangers(tier),
    ];
    out.extend(scaled_stages(tier));
    out
}

// ---------------------------------------------------------------- C15

/// Run generation with script-decided choices and script-decided callback answers.
fn callback_run(gram: &Grammar, script: &Script, rejects: usize) -> (Result<String, bnf::Error>, Vec<Ev>) {
    let mut any = Any::new(script, true);
    let log = Rc::clone(&any.log);
    let left = Cell::new(rejects);
    let r = gram.generate_seeded_callback_with_strategy(
        |nt, value| {
            let mut ok = true;
            if left.get() > 0 && !script.aborted() {
                ok = script.decide(2) != Some(1);
                if !ok {
                    left.set(left.get() - 1);
                }
            }
            log.borrow_mut().push(Ev::Call { nt: nt.into(), value: value.into(), ok });
            ok
        },
        &mut any,
    );
    let log = any.log.borrow().clone();
    (r, log)
}

fn same_log(want: &[Ev], got: &[Ev]) -> Res {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let same = match (w, g) {
            (Ev::Choose { nt: a, took: b, .. }, Ev::Choose { nt: c, took: d, .. }) => a == c && b == d,
            (a, b) => a == b,
        };
        if !same {
            return Err(format!("step {i}: expected {w:?}, got {g:?}"));
        }
    }
    if want.len() != got.len() {
        return Err(format!("{} steps, expected {}: {got:?}", got.len(), want.len()));
    }
    Ok(())
}

fn callbacks(g: &Rg, cap: usize, rejects: usize, cx: &mut Cx) -> Res {
    if !generable(g).contains(&g.start()) {
        return Ok(());
    }
    let gram = g.to_bnf();
    let mut seen = 0u64;
    every(cap, 6000, |script| {
        let model = Model::new(g, script, rejects, true);
        let want = model.eval(g.start(), 0);
        if script.aborted() {
            return Ok(());
        }
        let want_log = model.log.borrow().clone();
        let answers = script.taken();
        script.rewind();
        let (r, log) = callback_run(&gram, script, rejects);
        cx.states += 1;
        cx.transitions += log.len() as u64;
        let ctx = |e: String| format!("answers {answers:?}: {e}");
        same_log(&want_log, &log).map_err(ctx)?;
        match (want, r) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            (Ok(a), r) => return Err(ctx(format!("expected {a:?}, got {r:?}"))),
            (_, r) => return Err(ctx(format!("expected an error, got {r:?}"))),
        }
        cx.traces += 1;
        seen += 1;
        Ok(())
    })?;
    cx.sample(|| format!("{} {seen} executions with up to {rejects} rejections", g.show()));
    Ok(())
}

/// The entry points that draw their own choices: the set of callback histories is the model's.
fn callback_entries(g: &Rg, rejects: usize, cx: &mut Cx) -> Res {
    if !g.reachable(g.start()).is_subset(&generable(g)) || !single_draw() {
        return Ok(());
    }
    let gram = g.to_bnf();
    let mut want: BTreeSet<(Vec<(String, String, bool)>, String)> = BTreeSet::new();
    let calls = |log: &[Ev]| -> Vec<(String, String, bool)> {
        log.iter()
            .filter_map(|e| match e {
                Ev::Call { nt, value, ok } => Some((nt.clone(), value.clone(), *ok)),
                _ => None,
            })
            .collect()
    };
    let done = every(usize::MAX, 1500, |script| {
        let model = Model::new(g, script, rejects, true);
        if let Ok(s) = model.eval(g.start(), 0) {
            want.insert((calls(&model.log.borrow()), s));
        }
        Ok(())
    })?;
    if !done {
        return Ok(());
    }
    let m = lcm_alts(g);
    for e in [1, 3] {
        let mut got = BTreeSet::new();
        let done = every(usize::MAX, 4000, |script| {
            let left = Cell::new(rejects);
            let log = RefCell::new(vec![]);
            let r = {
                let _o = oracle(script, m, true);
                entry(e, &gram, 1, |nt, value| {
                    let mut ok = true;
                    if left.get() > 0 {
                        ok = script.decide(2) != Some(1);
                        if !ok {
                            left.set(left.get() - 1);
                        }
                    }
                    log.borrow_mut().push((nt.to_string(), value.to_string(), ok));
                    ok
                })
            };
            cx.states += 1;
            cx.transitions += log.borrow().len() as u64;
            let s = r.map_err(|e| format!("failed: {e}"))?;
            cx.traces += 1;
            let h = (log.into_inner(), s);
            if !want.contains(&h) {
                return Err(format!("{}: callback history {:?} with result {:?} must not happen", ENTRY[e], h.0, h.1));
            }
            got.insert(h);
            Ok(())
        })?;
        if done && let Some(h) = want.iter().find(|h| !got.contains(*h)) {
            return Err(format!("{}: callback history {:?} with result {:?} never happens", ENTRY[e], h.0, h.1));
        }
    }
    Ok(())
}

/// Many rejections in a row, at every level of a nesting.
fn rejection_stages(tier: Tier) -> [Stage; 2] {
    let mut ns = sizes(tier.pick(260, 1100), tier.pick(70_000, 140_000));
    ns.extend([0, 20_000, 50_000]);
    if tier == Tier::Thorough {
        ns.extend([99_999, 100_000, 100_001, 131_071, 131_072, 131_073]);
    }
    ns.sort_unstable();
    let (far, near): (Vec<usize>, Vec<usize>) = ns.into_iter().partition(|n| *n > 5000);
    [rejection_stage("many-rejections", tier, near), rejection_stage("huge-rejections", tier, far).soft()]
}
fn rejection_stage(name: &'static str, tier: Tier, ns: Vec<usize>) -> Stage {
    stage(name, format!("0..{} and around round numbers up to {} rejections in a row of the inner, middle or whole value", tier.pick(260, 1100), ns.iter().max().unwrap()), ns.len() as u64 * 3, move |i, cx| {
        let n = ns[(i / 3) as usize];
        let at = ["S", "A", "B"][(i % 3) as usize];
        let g = Rg {
            tn: strs(&["<", ">", "x", "y"]),
            nn: strs(&["S", "A", "B"]),
            prods: vec![(0, vec![vec![T(0), N(1), T(1)]]), (1, vec![vec![N(2), N(2)]]), (2, vec![vec![T(2)], vec![T(3)]])],
        };
        let gram = g.to_bnf();
        for e in 0..3 {
            let left = Cell::new(n);
            let log = RefCell::new(vec![]);
            let cb = |nt: &str, value: &str| {
                let ok = if nt == at && left.get() > 0 {
                    left.set(left.get() - 1);
                    false
                } else {
                    true
                };
                log.borrow_mut().push((nt.to_string(), value.to_string(), ok));
                ok
            };
            let r = match e {
                0 => entry(1, &gram, n as u8, cb),
                1 => entry(3, &gram, n as u8, cb),
                _ => gram.generate_seeded_callback_with_strategy(cb, &mut DepthBounded::from_seed(3, [n as u8; 32])),
            };
            let s = r.map_err(|e| format!("{n} rejections of <{at}>: {e}"))?;
            let log = log.into_inner();
            cx.states += 1;
            cx.transitions += log.len() as u64;
            cx.traces += 1;
            // check the history: a stack machine over the calls
            let mut stack: Vec<(String, String)> = vec![];
            let mut rejected = 0;
            for (k, (nt, value, ok)) in log.iter().enumerate() {
                let built = match nt.as_str() {
                    "B" => {
                        if value != "x" && value != "y" {
                            return Err(format!("call {k}: <B> has value {value:?}"));
                        }
                        value.clone()
                    }
                    "A" => {
                        let b2 = stack.pop().ok_or("too few values")?;
                        let b1 = stack.pop().ok_or("too few values")?;
                        if b1.0 != "B" || b2.0 != "B" {
                            return Err(format!("call {k}: <A> built of {b1:?} {b2:?}"));
                        }
                        b1.1 + &b2.1
                    }
                    _ => {
                        let a = stack.pop().ok_or("too few values")?;
                        if a.0 != "A" {
                            return Err(format!("call {k}: <S> built of {a:?}"));
                        }
                        format!("<{}>", a.1)
                    }
                };
                if built != *value {
                    return Err(format!("call {k}: <{nt}> has value {value:?}, its parts give {built:?}"));
                }
                if *ok {
                    stack.push((nt.clone(), value.clone()));
                } else {
                    rejected += 1;
                }
            }
            if rejected != n || stack != vec![("S".to_string(), s.clone())] {
                return Err(format!("{n} rejections of <{at}>: result {s:?}, left over {stack:?}, {rejected} rejected"));
            }
        }
        Ok(())
    })
}

/// The callback's answers as a function of the value: only acceptable sentences come out.
fn filter_stage(tier: Tier) -> Stage {
    let n = tier.pick(200u64, 2000);
    stage("value-filters", format!("{n} seeds: callbacks that accept by name and value"), n, move |i, cx| {
        let gram: Grammar = "<s> ::= <l> | <l> <s>\n<l> ::= 'a' | 'b' | 'c' | 'd'".parse().map_err(|e| format!("{e}"))?;
        for filter in 0..4 {
            let ok = |nt: &str, v: &str| match filter {
                0 => nt != "l" || v != "c",
                1 => nt != "s" || v.len() == 1 || v.as_bytes()[0] != v.as_bytes()[1],
                2 => nt != "s" || v.ends_with('d'),
                _ => (nt == "l" && v >= "c") || (nt == "s" && v.len() <= 4),
            };
            let calls = RefCell::new(vec![]);
            let mut rng: StdRng = SeedableRng::from_seed(seed_of(i));
            let s = gram
                .generate_seeded_callback(&mut rng, |nt, v| {
                    calls.borrow_mut().push((nt.to_string(), v.to_string()));
                    ok(nt, v)
                })
                .map_err(|e| format!("{e}"))?;
            cx.states += 1;
            cx.transitions += calls.borrow().len() as u64;
            cx.traces += 1;
            if !ok("s", &s) || calls.borrow().last() != Some(&("s".into(), s.clone())) {
                return Err(format!("filter {filter}: result {s:?} was not accepted by the last call"));
            }
            for k in 0..s.len() {
                if !ok("l", &s[k..k + 1]) || !ok("s", &s[k..]) {
                    return Err(format!("filter {filter}: result {s:?} contains a rejected part"));
                }
            }
        }
        Ok(())
    })
}

pub fn c15(tier: Tier) -> Vec<Stage> {
    let (cap, rej) = tier.pick((8, 2), (10, 3));
    let cap2 = cap + 2;
    let mut out = vec![
        filter_stage(tier),
        on_universe(acyclic(2, 2, 2), |g, cx| {
            callbacks(g, 10, 2, cx)?;
            callback_entries(g, 1, cx)
        }),
        on_universe(small_split(), move |g, cx| callbacks(g, cap, rej, cx)),
        on_universe(tier.pick(three(1), three(2)), move |g, cx| callbacks(g, cap2, rej, cx)),
        on_universe(small(), move |g, cx| callbacks(g, cap, rej, cx)),
        huge_callback(tier),
        strangers(tier),
    ];
    out.extend(rejection_stages(tier));
    out
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Copy, Debug, PartialEq)]
enum Strat {
    Seeded,
    SeededCallback,
    Walk,
    Depth(usize),
    Coverage,
    Weights(u32, u32),
}
const STRATS: [Strat; 9] = [
    Strat::Seeded,
    Strat::SeededCallback,
    Strat::Walk,
    Strat::Depth(2),
    Strat::Depth(6),
    Strat::Coverage,
    Strat::Weights(1, 2),
    Strat::Weights(3, 5),
    Strat::Weights(0, 0),
];

/// Sentences of `calls` successive generations with one generator or strategy.
fn sequence(g: &Grammar, st: Strat, seed: [u8; 32], calls: usize, between: &mut dyn FnMut(usize)) -> Vec<Result<String, String>> {
    let mut out = vec![];
    macro_rules! with {
        ($mk:expr) => {{
            let mut s = $mk;
            for k in 0..calls {
                out.push(g.generate_seeded_with_strategy(&mut s).map_err(|e| format!("{e}")));
                between(k);
            }
        }};
    }
    match st {
        Strat::Seeded => {
            let mut rng: StdRng = SeedableRng::from_seed(seed);
            for k in 0..calls {
                out.push(g.generate_seeded(&mut rng).map_err(|e| format!("{e}")));
                between(k);
            }
        }
        Strat::SeededCallback => {
            let mut rng: StdRng = SeedableRng::from_seed(seed);
            for k in 0..calls {
                out.push(g.generate_seeded_callback(&mut rng, |_, v| v != "b").map_err(|e| format!("{e}")));
                between(k);
            }
        }
        Strat::Walk => with!(RandomWalk::from_seed(seed)),
        Strat::Depth(d) => with!(DepthBounded::from_seed(d, seed)),
        Strat::Coverage => with!(CoverageGuided::from_seed(seed)),
        Strat::Weights(r, n) => with!(Weighted::from_seed(r, n, seed)),
    }
    out
}

fn c16_grammars() -> Vec<Rg> {
    let letters: Vec<String> = (0..16).map(|i| format!("{}", (b'a' + i as u8) as char)).collect();
    let g1 = Rg {
        tn: letters.clone(),
        nn: strs(&["s", "l", "m"]),
        prods: vec![
            (0, vec![vec![N(1); 12]]),
            (1, (0..16).map(|k| vec![T(k)]).collect()),
            (2, vec![vec![T(0)]]),
        ],
    };
    let g2 = Rg {
        tn: letters.clone(),
        nn: strs(&["s", "l", "m"]),
        prods: vec![
            (0, vec![vec![N(1)], vec![N(2)], vec![N(1), N(2)], vec![N(1), N(2), N(1), T(5)]]),
            (1, (0..4).map(|k| vec![T(k)]).collect()),
            (2, vec![vec![T(4)], vec![T(5), N(1)], vec![T(6)]]),
            (1, (8..12).map(|k| vec![T(k)]).collect()),
        ],
    };
    let g3 = Rg {
        tn: letters,
        nn: strs(&["s", "l"]),
        prods: vec![(0, vec![vec![T(0)], vec![T(1)], vec![T(2), N(1)], vec![T(3), N(1)]]), (1, vec![vec![T(4)], vec![T(5)], vec![T(6)]])],
    };
    vec![g1, g2, g3]
}

/// A digest of many sequences; equal in every process.
pub fn c16_digest() -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for g in c16_grammars() {
        let gram = g.to_bnf();
        for st in STRATS {
            for s in 0..12 {
                for r in sequence(&gram, st, seed_of(s), 4, &mut |_| ()) {
                    for b in format!("{r:?}").bytes() {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                }
            }
        }
    }
    format!("{h:016x}")
}

pub fn c16(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let exe = std::env::current_exe().expect("own path");
    out.push(stage("other-processes", "8 further processes generate the same sequences", 8, move |_, cx| {
        let o = std::process::Command::new(&exe).arg("digest-gen").output().map_err(|e| e.to_string())?;
        let theirs = String::from_utf8_lossy(&o.stdout).trim().to_string();
        let mine = c16_digest();
        cx.states += 1;
        cx.transitions += 1;
        cx.traces += 1;
        if theirs != mine {
            return Err(format!("another process generated other sequences (digest {theirs}, here {mine})"));
        }
        Ok(())
    }));
    let ns = sizes(tier.pick(70, 300), tier.pick(1030, 4100));
    out.push(stage("equal-grammars", format!("{} numbers of alternatives or symbols up to {}: 12 equal grammars in different places, 9 strategies and entry points", ns.len(), ns[ns.len() - 1]), ns.len() as u64 * STRATS.len() as u64, move |mut i, cx| {
        let st = STRATS[digit(&mut i, STRATS.len() as u64) as usize];
        let n = ns[i as usize];
        let g = Rg {
            tn: (0..n).map(|k| format!("{k} ")).collect(),
            nn: (0..3 + n.min(40)).map(|k| format!("n{k}")).collect(),
            prods: [(0, vec![vec![N(1), N(2), N(1)], vec![N(1), N(1), N(3 + (n / 2) % n.clamp(1, 40))]]), (1, (0..n).map(|k| vec![T(k)]).collect()), (2, (0..n).map(|k| vec![N(3 + k % n.min(40))]).collect())]
                .into_iter()
                .chain((0..n.min(40)).map(|k| (3 + k, vec![vec![T(k)], vec![T(n - 1 - k)]])))
                .collect(),
        };
        let base = g.to_bnf();
        let want = sequence(&base, st, seed_of(i + 5), 3, &mut |_| ());
        let mut kept: Vec<Vec<Grammar>> = vec![];
        for k in 0..6usize {
            let mut v = Vec::with_capacity(k * 3 + 1);
            v.push(base.clone());
            v.push(g.to_bnf());
            if k % 2 == 0 {
                // spare room in the lists
                let mut wide = Grammar::from_parts(vec![]);
                for p in base.productions_iter() {
                    let mut q = Production::from_parts(p.lhs.clone(), vec![]);
                    p.rhs_iter().for_each(|e| q.add_to_rhs(e.clone()));
                    wide.add_production(q);
                }
                v.push(wide);
            }
            kept.push(v);
        }
        for (k, gram) in kept.iter().flatten().enumerate() {
            let got = sequence(gram, st, seed_of(i + 5), 3, &mut |_| ());
            cx.states += 1;
            cx.transitions += 3;
            if got != want {
                return Err(format!("{st:?}, {n} alternatives: equal grammar {k} gives {got:?}, the first {want:?}"));
            }
        }
        cx.traces += 1;
        Ok(())
    }));
    let seeds = tier.pick(300u64, 4000);
    let gs = Arc::new(c16_grammars());
    let ng = gs.len() as u64;
    {
        let gs = Arc::clone(&gs);
        out.push(stage(
            "reproducible",
            format!("{seeds} seeds, 9 strategies and entry points, 3 grammars, 5 successive calls, 6 histories of other work in between"),
            seeds * STRATS.len() as u64 * ng,
            move |mut i, cx| {
                let st = STRATS[digit(&mut i, STRATS.len() as u64) as usize];
                let g = &gs[digit(&mut i, ng) as usize];
                let seed = seed_of(i);
                let gram = g.to_bnf();
                let want = sequence(&gram, st, seed, 5, &mut |_| ());
                let show = |h: &str, got: &Vec<Result<String, String>>| format!("{st:?} seed {i} {h}: {got:?}, before {want:?}");
                let again = sequence(&gram, st, seed, 5, &mut |_| ());
                if again != want {
                    return Err(show("generated again", &again));
                }
                let clone = gram.clone();
                let got = sequence(&clone, st, seed, 5, &mut |_| ());
                if got != want {
                    return Err(show("from a clone", &got));
                }
                let text = gram.to_string();
                let reread: Grammar = text.parse().map_err(|e| format!("{e}"))?;
                let got = sequence(&reread, st, seed, 5, &mut |_| ());
                if got != want {
                    return Err(show("from the grammar's text", &got));
                }
                let parser = gram.build_parser().map_err(|e| format!("{e}"))?;
                let got = sequence(&gram, st, seed, 5, &mut |k| {
                    let _ = parser.parse_input(["a", "b", "cc", ""][k % 4]).count();
                    let _ = gram.generate();
                    let mut w = Weighted::new(3, 1);
                    let _ = gram.generate_seeded_with_strategy(&mut w);
                    let mut c = CoverageGuided::new();
                    let _ = clone.generate_seeded_with_strategy(&mut c);
                });
                if got != want {
                    return Err(show("with other work in between", &got));
                }
                // two equally seeded sequences stepped alternately
                let mut inner = vec![];
                let mut outer_calls = 0;
                let got = sequence(&gram, st, seed, 5, &mut |_| {
                    outer_calls += 1;
                    inner = sequence(&gram, st, seed, outer_calls, &mut |_| ());
                });
                if got != want || inner != want {
                    return Err(show("two sequences alternately", &got));
                }
                // on another thread
                let g2 = gram.clone();
                let got = std::thread::spawn(move || sequence(&g2, st, seed, 5, &mut |_| ())).join().map_err(|_| "panic")?;
                if got != want {
                    return Err(show("on another thread", &got));
                }
                cx.states += 7 * 5;
                cx.transitions += 7 * 5;
                cx.traces += 7;
                cx.sample(|| format!("{st:?} seed {i}: {want:?}"));
                Ok(())
            },
        ));
    }
    // the generator is really used
    {
        let texts = [
            "<s> ::= 'x'",
            "<s> ::= 'x' <a> <a>\n<a> ::= 'y'",
            "<s> ::= 'y' <undefined> | 'x'",
            "<s> ::= 'x' | 'x'",
            "<s> ::= 'x'\n<a> ::= 'y' | 'z'",
            "<s> ::= <a>\n<a> ::= 'y'\n<a> ::= 'z'",
            "<s> ::= ''",
            "<s> ::= 'x' <s> | 'y'",
        ];
        out.push(stage("always-advances", format!("{} grammars with and without choices, 64 seeds, 1..6 calls: the supplied generator is in a new state after each", texts.len()), texts.len() as u64 * 2, move |i, cx| {
            let g: Grammar = texts[i as usize / 2].parse().map_err(|e| format!("{e}"))?;
            let other: Grammar = "<s> ::= '0' <s> | '1' <s> | '2' <s> | '3' <s> | '4'".parse().map_err(|e| format!("{e}"))?;
            for seed in 0..64 {
                let mut rng: StdRng = SeedableRng::from_seed(seed_of(seed));
                let mut states = vec![rng.clone()];
                for call in 1..=6 {
                    let r = if i % 2 == 0 { g.generate_seeded(&mut rng) } else { g.generate_seeded_callback(&mut rng, |_, _| true) };
                    r.map_err(|e| format!("{g}: {e}"))?;
                    cx.transitions += 1;
                    cx.states += 1;
                    if states.contains(&rng) {
                        return Err(format!("{g}: after call {call} with the generator of seed {seed} the generator is in a state it was in before"));
                    }
                    states.push(rng.clone());
                    // and what comes next depends on it only
                    let mut twin = rng.clone();
                    if other.generate_seeded(&mut twin).map_err(|e| e.to_string())? != other.generate_seeded(&mut rng.clone()).map_err(|e| e.to_string())? {
                        return Err(format!("{g}: equal generators, different sentences"));
                    }
                }
                cx.traces += 1;
            }
            Ok(())
        }));
        let n = tier.pick(100_000u64, 600_000);
        let g = gs[0].to_bnf();
        out.push(stage("seeds-matter", format!("{n} seeds per entry point: sentences of 12 letters out of 16 all differ, successive ones too"), 3, move |i, cx| {
            let mut seen: HashMap<String, u64> = HashMap::new();
            let mut clashes = vec![];
            for s in 0..n {
                let mut rng: StdRng = SeedableRng::from_seed(seed_of(s));
                let before = rng.clone();
                let a = match i {
                    0 => g.generate_seeded(&mut rng),
                    1 => g.generate_seeded_callback(&mut rng, |_, _| true),
                    _ => g.generate_seeded_with_strategy(&mut RandomWalk::from_seed(seed_of(s))),
                }
                .map_err(|e| format!("{e}"))?;
                cx.states += 1;
                cx.transitions += 1;
                if i < 2 && rng == before {
                    return Err("the supplied generator does not advance".into());
                }
                if i < 2 && s < 2000 {
                    let b = if i == 0 { g.generate_seeded(&mut rng) } else { g.generate_seeded_callback(&mut rng, |_, _| true) };
                    let b = b.map_err(|e| format!("{e}"))?;
                    if a == b {
                        return Err(format!("seed {s}: two successive calls both generate {a:?}"));
                    }
                }
                if let Some(o) = seen.insert(a.clone(), s) {
                    clashes.push(format!("seeds {o} and {s} both generate {a:?}"));
                    // 16^12 sentences: the expected number of clashes is below 0.001
                    if clashes.len() >= 3 {
                        return Err(clashes.join("; "));
                    }
                }
            }
            cx.traces += n;
            Ok(())
        }));
    }
    // every byte of a strategy's seed matters
    out.push(stage("every-seed-byte", "32 bytes × 9 strategies: changing one byte of the seed changes the sequence of 80 choices", 32 * STRATS.len() as u64, move |i, cx| {
        let st = STRATS[(i / 32) as usize];
        let byte = (i % 32) as usize;
        let gram = gs[0].to_bnf();
        for (base, flip) in [(0u8, 1u8), (0, 128), (7, 64)] {
            let seed = [base; 32];
            let mut other = seed;
            other[byte] ^= flip;
            let a = sequence(&gram, st, seed, 8, &mut |_| ());
            let b = sequence(&gram, st, other, 8, &mut |_| ());
            cx.states += 16;
            cx.transitions += 16;
            if a == b {
                return Err(format!("{st:?}: seeds differing in byte {byte} give the same sentences {a:?}"));
            }
        }
        cx.traces += 3;
        Ok(())
    }));
    // draws decide: different draws give different choices, through every entry point
    let u = acyclic(2, 2, 2);
    let n = u.count();
    out.push(stage("draws-decide", u.bounds(), n, move |i, cx| {
        let g = u.get(i);
        if !g.reachable(0).is_subset(&generable(&g)) || !single_draw() {
            return Ok(());
        }
        let Some((want, true)) = model_sentences(&g, 8, 2000) else { return Ok(()) };
        let gram = g.to_bnf();
        let m = lcm_alts(&g);
        for e in 0..2 {
            let mut got: BTreeMap<Vec<usize>, String> = BTreeMap::new();
            let done = every(usize::MAX, 4000, |script| {
                let _o = oracle(script, m, true);
                let r = entry(e, &gram, 1, |_, _| true).map_err(|e| format!("{e}"))?;
                cx.states += 1;
                cx.transitions += script.taken().len() as u64;
                got.insert(script.taken().iter().map(|t| t.0).collect(), r);
                Ok(())
            })?;
            let set: BTreeSet<&String> = got.values().collect();
            if done && set.len() < want.len() {
                return Err(format!("{}{}: all draws together give {} of {} sentences", g.show(), ENTRY[e], set.len(), want.len()));
            }
            cx.traces += got.len() as u64;
        }
        Ok(())
    }));
    out.push(long_sequences(tier));
    out
}

// ---------------------------------------------------------------- C17

fn depth_eligible(p: &Production, depth: usize, max: usize) -> Vec<bool> {
    let term: Vec<bool> = p.rhs_iter().map(|e| e.terms_iter().all(|t| matches!(t, Term::Terminal(_)))).collect();
    if depth >= max && term.iter().any(|t| *t) { term } else { vec![true; p.len()] }
}

fn over(flags: &[bool]) -> Vec<f64> {
    let n = flags.iter().filter(|f| **f).count();
    flags.iter().map(|f| if *f { 1.0 / n as f64 } else { 0.0 }).collect()
}

fn depth_dist(max: usize, steps: &[(Production, usize)], cx: &mut Cx) -> Res {
    let el: Vec<Vec<bool>> = steps.iter().map(|(p, d)| depth_eligible(p, *d, max)).collect();
    let unit = |k: usize| el[k].iter().filter(|f| **f).count();
    distribution(
        &|| DepthBounded::from_seed(max, seed_of(1)),
        &|s| DepthBounded::from_seed(max, seed_of(s)),
        steps,
        &unit,
        &|h| over(&el[h.len()]),
        &|_, _| (),
        1e-9,
        cx,
    )
    .map_err(|e| format!("DepthBounded({max}), {}: {e}", steps.iter().map(|(p, d)| format!("[{p} at depth {d}]")).collect::<Vec<_>>().join(" ")))
}

/// Grammars in which every symbol has an all-terminal alternative.
fn all_escape(alts: u32) -> Uni {
    let top = [N(0), N(1), T(0)];
    let sub = [N(0), N(1), T(1)];
    Uni {
        name: "escaping",
        tn: strs(&["a", "b"]),
        nn: strs(&["S", "A"]),
        nts: vec![spec(&top, (0, 2), (1, alts)), spec(&sub, (0, 2), (1, alts))],
        inputs: vec![],
        split: false,
    }
}

/// Sentences derivable with every expansion at depth >= max using an all-terminal alternative.
fn bounded_sentences(g: &Rg, max: usize, cap: usize) -> Option<BTreeSet<String>> {
    fn of(g: &Rg, nt: usize, depth: usize, max: usize, cap: usize) -> Option<BTreeSet<String>> {
        let alts = g.alts_of(nt);
        let term = |a: &[Sym]| a.iter().all(|s| matches!(s, T(_)));
        let mut out = BTreeSet::new();
        for a in alts {
            if depth >= max && !term(a) {
                continue;
            }
            let mut acc = BTreeSet::from([String::new()]);
            for s in a {
                let add: BTreeSet<String> = match s {
                    T(t) => BTreeSet::from([g.tn[*t].clone()]),
                    N(n) => of(g, *n, depth + 1, max, cap)?,
                };
                if acc.len() * add.len() > cap * 4 {
                    return None;
                }
                acc = acc.iter().flat_map(|x| add.iter().map(move |y| x.clone() + y)).collect();
            }
            out.extend(acc);
            if out.len() > cap {
                return None;
            }
        }
        Some(out)
    }
    of(g, g.start(), 0, max, cap)
}

fn bounded_case(g: &Rg, cx: &mut Cx) -> Res {
    let gen_ok = generable(g);
    if !g.reachable(g.start()).is_subset(&gen_ok) {
        return Ok(());
    }
    if !g.reachable(g.start()).iter().all(|n| g.alts_of(*n).iter().any(|a| a.iter().all(|s| matches!(s, T(_))))) {
        return Ok(());
    }
    let gram = g.to_bnf();
    for max in 0..=2 {
        let Some(want) = bounded_sentences(g, max, 300) else { continue };
        let mut got = BTreeSet::new();
        let mut many = false;
        let done = every(60, 4000, |script| {
            let mut st =
                Driven { inner: DepthBounded::from_seed(max, [1; 32]), script: script.clone(), units: len_units6, log: Rc::default() };
            let r = gram.generate_seeded_with_strategy(&mut st);
            cx.states += 1;
            if script.aborted() {
                if script.multi() {
                    many = true;
                    return Ok(());
                }
                return Err(format!("DepthBounded({max}): more than 60 choices"));
            }
            let log = st.log.borrow();
            many |= script.multi();
            cx.transitions += log.len() as u64;
            // depths reported must be the nesting: replay the choices in the model
            let deepest = log.iter().map(|e| if let Ev::Choose { depth, .. } = e { *depth } else { 0 }).max().unwrap_or(0);
            if deepest > max {
                return Err(format!("DepthBounded({max}): a symbol was expanded at depth {deepest}: {log:?}"));
            }
            nesting(g, &log)?;
            let s = r.map_err(|e| format!("DepthBounded({max}): {e}"))?;
            cx.traces += 1;
            if !want.contains(&s) {
                return Err(format!("DepthBounded({max}) generated {s:?}, which needs deeper nesting"));
            }
            got.insert(s);
            Ok(())
        })?;
        if done && !many && got != want {
            return Err(format!("DepthBounded({max}) never generates {:?}", want.difference(&got).collect::<Vec<_>>()));
        }
        cx.bump("sentences", got.len() as u64);
        // retries after a rejection stay at the same depth
        every(30, 800, |script| {
            let mut st =
                Driven { inner: DepthBounded::from_seed(max, [1; 32]), script: script.clone(), units: len_units, log: Rc::default() };
            let left = Cell::new(2);
            let r = gram.generate_seeded_callback_with_strategy(
                |_, _| {
                    if left.get() > 0 && script.decide(2) == Some(1) {
                        left.set(left.get() - 1);
                        return false;
                    }
                    true
                },
                &mut st,
            );
            if script.aborted() {
                return Ok(());
            }
            cx.states += 1;
            let deepest = st.log.borrow().iter().map(|e| if let Ev::Choose { depth, .. } = e { *depth } else { 0 }).max().unwrap_or(0);
            if deepest > max {
                return Err(format!("DepthBounded({max}) with rejections: a symbol was expanded at depth {deepest}"));
            }
            let s = r.map_err(|e| e.to_string())?;
            if !want.contains(&s) {
                return Err(format!("DepthBounded({max}) with rejections generated {s:?}, which needs deeper nesting"));
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn len_units6(p: &Production) -> usize {
    // a multiple of every possible number of eligible alternatives
    match p.len() {
        0 | 1 => 1,
        2 => 2,
        3 => 6,
        _ => 12,
    }
}

/// The depths handed to the strategy are the nesting depths of the expansions.
fn nesting(g: &Rg, log: &[Ev]) -> Res {
    fn walk(g: &Rg, nt: usize, depth: usize, log: &[Ev], at: &mut usize) -> Res {
        let Some(Ev::Choose { nt: name, depth: d, took, alts }) = log.get(*at) else {
            return Err("an expansion without a choice".into());
        };
        *at += 1;
        if *name != g.nn[nt] || *d != depth {
            return Err(format!("choice {} is for <{name}> at depth {d}, expected <{}> at depth {depth}", *at - 1, g.nn[nt]));
        }
        let Some(k) = took else { return Err("nothing chosen".into()) };
        for t in &alts[*k] {
            if let Term::Nonterminal(n) = t {
                let id = g.nn.iter().position(|x| x == n).unwrap();
                walk(g, id, depth + 1, log, at)?;
            }
        }
        Ok(())
    }
    let mut at = 0;
    walk(g, g.start(), 0, log, &mut at)
}

pub fn c17(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    let shapes = Seqs { radix: SHAPES.len() as u64, lo: 1, hi: tier.pick(4, 5) };
    out.push(stage("choice-shapes", "every combination of 1..4 alternative shapes, depths 0..3 against bounds 0..3", shapes.count() * 16, move |mut i, cx| {
        let (depth, max) = (digit(&mut i, 4) as usize, digit(&mut i, 4) as usize);
        depth_dist(max, &[(shaped(&shapes.get(i), "s"), depth)], cx)
    }));
    let ds = [0usize, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 255, 256, 1000, 65535, usize::MAX - 1, usize::MAX];
    let nd = ds.len() as u64;
    out.push(stage("depth-pairs", "18 × 18 pairs of depth and bound up to usize::MAX, 3 productions", nd * nd * 3, move |mut i, cx| {
        let (d, m) = (ds[digit(&mut i, nd) as usize], ds[digit(&mut i, nd) as usize]);
        let p = shaped([&[1, 0, 4][..], &[3, 1], &[0, 2, 6, 5]][i as usize], "s");
        depth_dist(m, &[(p, d)], cx)
    }));
    let ns = sizes(tier.pick(100, 300), tier.pick(520, 1100));
    let nmax = ns.len() as u64;
    out.push(stage("many-alternatives", format!("{nmax} numbers of alternatives up to {}, the terminal ones at the start, the end, every other place or one place", ns[ns.len() - 1]), nmax * 8, move |mut i, cx| {
        let kind = digit(&mut i, 4);
        let depth = digit(&mut i, 2) as usize;
        let n = ns[i as usize];
        let ids: Vec<usize> = (0..n)
            .map(|k| {
                let term = match kind {
                    0 => k < n.div_ceil(2),
                    1 => k >= n / 2,
                    2 => k % 2 == 1,
                    _ => k == n * 2 / 3,
                };
                if term { [0, 2, 5][k % 3] } else { [1, 3, 4, 6][k % 4] }
            })
            .collect();
        depth_dist(1, &[(shaped(&ids, "s"), depth)], cx)
    }));
    // the strategy is reused: what it chose before must not matter
    let steps = Seqs { radix: 8, lo: 2, hi: tier.pick(3, 4) };
    out.push(stage("reuse", "sequences of 2..3 choices out of 4 productions × 2 depths with one strategy, all joint outcomes", steps.count(), move |i, cx| {
        let st: Vec<(Production, usize)> = steps
            .get(i)
            .into_iter()
            .map(|k| (shaped([&[0, 1][..], &[1, 3, 0], &[6, 1], &[5, 2, 0, 4]][k % 4], if k % 2 == 0 { "s" } else { "q" }), k / 4))
            .collect();
        depth_dist(1, &st, cx)
    }));
    out.push(stage("bound-changed", "the public bound changed between choices", 9, move |i, cx| {
        let p = shaped(&[1, 0, 3, 5], "s");
        let (m1, m2) = ((i / 3) as usize, (i % 3) as usize);
        let st = [(p.clone(), 1), (p.clone(), 1)];
        let el = [depth_eligible(&p, 1, m1), depth_eligible(&p, 1, m2)];
        let unit = |k: usize| el[k].iter().filter(|f| **f).count();
        distribution(
            &|| DepthBounded::from_seed(m1, seed_of(1)),
            &|s| DepthBounded::from_seed(m1, seed_of(s)),
            &st,
            &unit,
            &|h| over(&el[h.len()]),
            &|s: &mut DepthBounded, k| s.max_depth = [m1, m2][k],
            1e-9,
            cx,
        )
    }));
    // long recursion: the strategy is driven towards recursion until the bound stops it
    let nest = tier.pick(400u64, 1000);
    out.push(stage("deep-bounds", format!("bounds 0..{nest}: always drawing the recursive alternative nests exactly to the bound"), nest, move |i, cx| {
        let max = i as usize;
        let g = Rg { tn: strs(&["(", ")", "x"]), nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0), N(0), T(1)], vec![T(2)]])] };
        let gram = g.to_bnf();
        let r = gram.generate_seeded_with_strategy(&mut Recursing(DepthBounded::new(max)));
        cx.states += 1;
        cx.transitions += i;
        cx.traces += 1;
        let want = "(".repeat(max) + "x" + &")".repeat(max);
        match r {
            Ok(s) if s == want => Ok(()),
            r => Err(format!("DepthBounded({max}) always recursing: {:?}, expected nesting {max}", r.map(|s| format!("{} bytes {}", s.len(), clip(&s))))),
        }
    }));
    let u = all_escape(tier.pick(2, 3));
    out.push(on_universe(u, bounded_case));
    out.push(on_universe(small_split(), bounded_case));
    out.push(huge_depth(tier));
    out.push(after_many(tier, |s| DepthBounded::from_seed(1, seed_of(s)), |p, d| over(&depth_eligible(p, d, 1)), |p, d| depth_eligible(p, d, 1).iter().filter(|f| **f).count()));
    out
}

// ---------------------------------------------------------------- C18

/// Histories of expansions with one strategy: (symbol, alternatives) per step.
fn coverage_dist(steps: &[(Production, usize)], cx: &mut Cx) -> Res {
    // the model: per left-hand side, the set of indices chosen so far
    let eligible = |h: &[usize]| -> Vec<bool> {
        let k = h.len();
        let lhs = &steps[k].0.lhs;
        let n = steps[k].0.len();
        let mut seen = vec![false; n];
        for (j, i) in h.iter().enumerate() {
            if steps[j].0.lhs == *lhs && *i < n {
                seen[*i] = true;
            }
        }
        let un: Vec<bool> = seen.iter().map(|s| !s).collect();
        if un.iter().any(|u| *u) { un } else { vec![true; n] }
    };
    let mut bad = None;
    let mut runs = 0u64;
    let mut tried: HashMap<Vec<usize>, BTreeSet<usize>> = HashMap::new();
    let mut many = false;
    // all draws: units is a multiple of every possible number of candidates
    let done = every(usize::MAX, 400_000, |script| {
        let mut st = CoverageGuided::from_seed([4; 32]);
        let mut h: Vec<usize> = vec![];
        for (k, (p, depth)) in steps.iter().enumerate() {
            let el = eligible(&h);
            let m = el.iter().filter(|f| **f).count();
            let before = script.taken().len();
            let s2 = script.clone();
            rand::mc_oracle::set(Some(Box::new(move |bits| Some(grid(s2.decide(m).unwrap_or(0), m, bits)))));
            let _o = Oracle;
            let e = st.choose(p, *depth);
            many |= script.taken().len() > before + 1;
            let Some(i) = e.and_then(|e| index_of(p, e)) else {
                bad = Some(format!("step {k} after {h:?}: nothing chosen"));
                break;
            };
            if !el[i] {
                bad = Some(format!("step {k} ({}) after choices {h:?}: chose alternative {i} again although {:?} are untried", p.lhs, (0..p.len()).filter(|x| el[*x]).collect::<Vec<_>>()));
                break;
            }
            tried.entry(h.clone()).or_default().insert(i);
            h.push(i);
        }
        runs += 1;
        match &bad {
            Some(b) => Err(b.clone()),
            // choices of several draws each: their combinations are not all run
            None if many && runs >= 300 => Err(String::new()),
            None => Ok(()),
        }
    });
    let done = match done {
        Err(e) if e.is_empty() => false,
        other => other?,
    };
    cx.states += tried.len() as u64;
    cx.transitions += runs * steps.len() as u64;
    cx.traces += runs;
    if done && !many {
        for (h, got) in &tried {
            let want: BTreeSet<usize> = eligible(h).iter().enumerate().filter(|(_, f)| **f).map(|(i, _)| i).collect();
            if *got != want {
                return Err(format!("after choices {h:?}: only {got:?} can be chosen out of {want:?}"));
            }
        }
    }
    Ok(())
}

fn coverage_grammar(g: &Rg, cap: usize, cx: &mut Cx) -> Res {
    if !g.reachable(g.start()).is_subset(&generable(g)) {
        return Ok(());
    }
    let gram = g.to_bnf();
    every(cap, 1500, |script| {
        let mut st = Driven { inner: CoverageGuided::from_seed([2; 32]), script: script.clone(), units: len_units6, log: Rc::default() };
        for _ in 0..3 {
            let _ = gram.generate_seeded_with_strategy(&mut st);
            if script.aborted() {
                break;
            }
            cx.traces += 1;
        }
        cx.states += 1;
        // replay the log against the model
        let mut seen: HashMap<&str, BTreeSet<usize>> = HashMap::new();
        for (k, e) in st.log.borrow().iter().enumerate() {
            if let Ev::Choose { nt, alts, took, .. } = e {
                cx.transitions += 1;
                let id = g.nn.iter().position(|n| n == nt).ok_or("unknown symbol")?;
                if alts.len() != g.alts_of(id).len() {
                    return Err(format!("<{nt}> is offered {} alternatives, the grammar has {}", alts.len(), g.alts_of(id).len()));
                }
                let Some(i) = took else { return Err("nothing chosen".into()) };
                let s = seen.entry(g.nn[id].as_str()).or_default();
                if s.len() < alts.len() && s.contains(i) {
                    return Err(format!("expansion {k}: <{nt}> uses alternative {i} again although only {s:?} of {} were tried", alts.len()));
                }
                s.insert(*i);
            }
        }
        Ok(())
    })?;
    Ok(())
}

pub fn c18(tier: Tier) -> Vec<Stage> {
    let mut out = vec![];
    // one symbol with n alternatives, expanded n times: all exercised, under 5 patterns of draws
    let ns = sizes(tier.pick(300, 600), tier.pick(1100, 4100));
    let nmax = ns.len() as u64;
    out.push(stage("exercise-all", format!("{nmax} numbers of alternatives up to {} expanded in turn with another symbol's; draws low, high, middle, alternating, real", ns[ns.len() - 1]), nmax * 5, move |mut i, cx| {
        let pat = digit(&mut i, 5);
        let n = ns[i as usize];
        let (p, q) = (of_len(n, "s"), of_len(n.div_ceil(2), "S"));
        let mut st = CoverageGuided::from_seed(seed_of(i));
        let mut k = 0usize;
        if pat < 4 {
            rand::mc_oracle::set(Some(Box::new(move |bits| {
                k += 1;
                Some(match pat {
                    0 => grid(0, 1 << 12, bits),
                    1 => grid((1 << 12) - 1, 1 << 12, bits),
                    2 => grid(1 << 11, 1 << 12, bits),
                    _ => grid(if k % 2 == 0 { 5 } else { (1 << 12) - 5 }, 1 << 12, bits),
                })
            })));
        }
        let _o = Oracle;
        let (mut sp, mut sq) = (BTreeSet::new(), BTreeSet::new());
        for step in 0..n {
            for (p, s) in [(&p, &mut sp), (&q, &mut sq)] {
                let Some(x) = st.choose(p, step % 3).and_then(|e| index_of(p, e)) else { return Err("nothing chosen".into()) };
                cx.transitions += 1;
                if s.len() < p.len() && !s.insert(x) {
                    return Err(format!("{n} alternatives, draws {pat}, expansion {step}: alternative {x} chosen again with {} untried", p.len() - s.len()));
                }
            }
        }
        cx.states += n as u64;
        cx.traces += 1;
        Ok(())
    }));
    let ms = sizes(tier.pick(40, 130), tier.pick(600, 2100));
    let nm = ms.len() as u64;
    out.push(stage("many-symbols", format!("{nm} numbers of symbols up to {}, 4 alternatives each, expanded round robin; draws low, high, real", ms[ms.len() - 1]), nm * 3, move |mut i, cx| {
        let pat = digit(&mut i, 3);
        let m = ms[i as usize];
        let ps: Vec<Production> = (0..m).map(|k| of_len(4, &format!("n{k}"))).collect();
        let mut st = CoverageGuided::from_seed(seed_of(i));
        if pat < 2 {
            rand::mc_oracle::set(Some(Box::new(move |bits| Some(grid(if pat == 0 { 0 } else { (1 << 12) - 1 }, 1 << 12, bits)))));
        }
        let _o = Oracle;
        let mut seen = vec![0u8; m];
        for round in 0..4 {
            for (k, p) in ps.iter().enumerate() {
                let Some(x) = st.choose(p, 0).and_then(|e| index_of(p, e)) else { return Err("nothing chosen".into()) };
                cx.transitions += 1;
                if seen[k] >> x & 1 == 1 {
                    return Err(format!("{m} symbols, draws {pat}, round {round}: alternative {x} of symbol {k} chosen again"));
                }
                seen[k] |= 1 << x;
            }
        }
        cx.states += m as u64;
        cx.traces += 1;
        Ok(())
    }));
    let names = ["s", "S", "s ", ""];
    let kinds: Vec<(usize, Vec<usize>)> =
        vec![(0, vec![0, 1]), (0, vec![0, 0]), (1, vec![0, 1]), (1, vec![3, 2, 4]), (2, vec![0]), (3, vec![1, 1, 0])];
    let steps = Seqs { radix: kinds.len() as u64, lo: 1, hi: tier.pick(5, 6) };
    out.push(stage("expansion-histories", "all histories of 1..5 expansions of 6 productions (same symbol twice, equal alternatives, similar names), all draws", steps.count(), move |i, cx| {
        let st: Vec<(Production, usize)> = steps
            .get(i)
            .into_iter()
            .enumerate()
            .map(|(d, k)| (shaped(&kinds[k].1, names[kinds[k].0]), d % 3))
            .collect();
        coverage_dist(&st, cx).map_err(|e| format!("{}: {e}", st.iter().map(|(p, _)| format!("[{p}]")).collect::<Vec<_>>().join(" ")))
    }));
    // one symbol, n expansions: every draw
    out.push(stage("one-symbol", "1..5 alternatives expanded up to 6 times, all draws", 30, move |i, cx| {
        let n = (i % 5 + 1) as usize;
        let len = (i / 5 + 1) as usize;
        let st: Vec<(Production, usize)> = (0..len).map(|d| (of_len(n, "s"), d)).collect();
        coverage_dist(&st, cx).map_err(|e| format!("{n} alternatives, {len} expansions: {e}"))
    }));
    let cap = tier.pick(7, 9);
    out.push(on_universe(acyclic(2, 2, 2), move |g, cx| coverage_grammar(g, cap, cx)));
    out.push(on_universe(small_split(), move |g, cx| coverage_grammar(g, cap, cx)));
    if tier == Tier::Thorough {
        out.push(on_universe(three(2), move |g, cx| coverage_grammar(g, cap, cx)));
    } else {
        out.push(on_universe(three(1), move |g, cx| coverage_grammar(g, cap, cx)));
    }
    out.extend(huge_coverage(tier));
    out
}

// ---------------------------------------------------------------- C19

fn weight_probs(p: &Production, r: u32, n: u32) -> Vec<f64> {
    let w: Vec<f64> = p.rhs_iter().map(|e| if e.terms_iter().any(|t| *t == p.lhs) { f64::from(r) } else { f64::from(n) }).collect();
    let total: f64 = w.iter().sum();
    if total == 0.0 { uniform(w.len()) } else { w.iter().map(|x| x / total).collect() }
}

fn weight_dist(steps: &[(Production, usize)], r: u32, n: u32, cx: &mut Cx) -> Res {
    let probs: Vec<Vec<f64>> = steps.iter().map(|(p, _)| weight_probs(p, r, n)).collect();
    // units: the total weight when small (exact), else 48 equally spaced draws
    let totals: Vec<u64> = steps
        .iter()
        .map(|(p, _)| {
            let t: u64 = p.rhs_iter().map(|e| if e.terms_iter().any(|t| *t == p.lhs) { u64::from(r) } else { u64::from(n) }).sum();
            if t == 0 { p.len() as u64 } else { t }
        })
        .collect();
    let exact = totals.iter().all(|t| *t <= 1500);
    let unit = |k: usize| if exact { totals[k] as usize } else { 48 };
    distribution(
        &|| Weighted::from_seed(r, n, seed_of(1)),
        &|s| Weighted::from_seed(r, n, seed_of(s)),
        steps,
        &unit,
        &|h| probs[h.len()].clone(),
        &|_, _| (),
        if exact { 1e-9 } else { 1.01 / 48.0 },
        cx,
    )
    .map_err(|e| format!("Weighted({r},{n}), {}: {e}", steps.iter().map(|(p, _)| format!("[{p}]")).collect::<Vec<_>>().join(" ")))
}

pub fn c19(tier: Tier) -> Vec<Stage> {
    const W: [u32; 14] = [0, 1, 2, 3, 5, 7, 100, 255, 256, 65_536, 1 << 30, 1 << 31, u32::MAX - 1, u32::MAX];
    let nw = W.len() as u64;
    let mut out = vec![];
    let shapes = Seqs { radix: SHAPES.len() as u64, lo: 1, hi: tier.pick(3, 4) };
    out.push(stage("weights-and-shapes", "14 × 14 pairs of weights up to u32::MAX, every combination of 1..3 alternative shapes", shapes.count() * nw * nw, move |mut i, cx| {
        let (r, n) = (W[digit(&mut i, nw) as usize], W[digit(&mut i, nw) as usize]);
        let p = shaped(&shapes.get(i), "s");
        weight_dist(&[(p, 1)], r, n, cx)
    }));
    out.push(stage("exact-shares", "14 × 14 pairs of weights up to u32::MAX, every combination of 1..3 alternative shapes: the boundaries between alternatives over all draws", shapes.count() * nw * nw, move |mut i, cx| {
        let (r, n) = (W[digit(&mut i, nw) as usize], W[digit(&mut i, nw) as usize]);
        let p = shaped(&shapes.get(i), "s");
        exact_shares(&|| Weighted::from_seed(r, n, seed_of(1)), &p, 0, &weight_probs(&p, r, n), cx).map_err(|e| format!("Weighted({r},{n}), {p}: {e}"))
    }));
    let s4 = Seqs { radix: SHAPES.len() as u64, lo: 4, hi: tier.pick(4, 5) };
    out.push(stage("small-weights", "weights 0..5 × 0..5, every combination of 4 alternative shapes, exact", s4.count() * 36, move |mut i, cx| {
        let (r, n) = (digit(&mut i, 6) as u32, digit(&mut i, 6) as u32);
        weight_dist(&[(shaped(&s4.get(i), "s"), 0)], r, n, cx)
    }));
    // where in the alternative the symbol is mentioned, up to k terms
    let kmax = tier.pick(40u64, 200);
    out.push(stage("mention-anywhere", format!("alternatives of 1..{kmax} terms mentioning the symbol at one place, against one that does not; similar names"), (1..=kmax).sum::<u64>(), move |i, cx| {
        let mut k = 1;
        let mut rest = i;
        while rest >= k {
            rest -= k;
            k += 1;
        }
        let lhs = Term::Nonterminal("s".into());
        let mut with: Vec<Term> = (0..k).map(|j| if j % 2 == 0 { Term::Terminal("s".into()) } else { Term::Nonterminal("S".into()) }).collect();
        let without = with.clone();
        with[rest as usize] = lhs.clone();
        let p = Production::from_parts(lhs, vec![Expression::from_parts(without), Expression::from_parts(with)]);
        weight_dist(&[(p.clone(), 0)], 3, 1, cx)?;
        weight_dist(&[(p.clone(), 0)], 0, 4, cx)?;
        weight_dist(&[(p, 9)], 4, 0, cx)
    }));
    let ns = sizes(tier.pick(120, 400), tier.pick(520, 1100));
    let nmax = ns.len() as u64;
    out.push(stage("many-alternatives", format!("{nmax} numbers of alternatives up to {}, 7 pairs of weights", ns[ns.len() - 1]), nmax * 7, move |mut i, cx| {
        let (r, n) = [(1, 1), (0, 1), (1, 0), (2, 1), (u32::MAX, u32::MAX), (0, 0), (3, 4)][digit(&mut i, 7) as usize];
        let p = of_len(ns[i as usize], "s");
        let probs = weight_probs(&p, r, n);
        if r == u32::MAX {
            // equal weights at the limit: every alternative in its place
            let m = p.len();
            return distribution(
                &|| Weighted::from_seed(r, n, seed_of(1)),
                &|s| Weighted::from_seed(r, n, seed_of(s)),
                &[(p, 0)],
                &|_| m,
                &|_| probs.clone(),
                &|_, _| (),
                1e-9,
                cx,
            )
            .map_err(|e| format!("Weighted({r},{n}), {m} alternatives: {e}"));
        }
        weight_dist(&[(p, 0)], r, n, cx)
    }));
    let seqs = Seqs { radix: 6, lo: 2, hi: 3 };
    out.push(stage("reuse", "sequences of 2..3 choices out of 6 productions with one strategy, 4 pairs of weights, all joint outcomes", seqs.count() * 4, move |mut i, cx| {
        let (r, n) = [(2, 1), (1, 3), (0, 1), (0, 0)][digit(&mut i, 4) as usize];
        let st: Vec<(Production, usize)> = seqs
            .get(i)
            .into_iter()
            .enumerate()
            .map(|(d, k)| (shaped([&[0, 1][..], &[1, 0], &[3, 0, 4], &[2], &[6], &[5, 1, 3, 0]][k], ["s", "q"][k % 2]), d))
            .collect();
        weight_dist(&st, r, n, cx)
    }));
    out.push(stage("weights-changed", "the public weights changed between 2..3 choices, all sequences of 5 pairs, 4 arrangements of productions, all joint outcomes", 5 * 5 * 5 * 4 + 5 * 5 * 4, move |mut i, cx| {
        const PAIRS: [(u32, u32); 5] = [(2, 1), (1, 3), (0, 1), (1, 0), (0, 0)];
        let ps: Vec<Production> = match digit(&mut i, 4) {
            0 => vec![shaped(&[1, 0], "s"); 3],
            1 => vec![shaped(&[1, 0, 3], "s"), shaped(&[1, 0, 3], "s"), shaped(&[0, 1, 3], "s")],
            2 => vec![shaped(&[1, 0], "s"), shaped(&[0, 3], "q"), shaped(&[1, 0], "s")],
            _ => vec![shaped(&[0, 2], "s"), shaped(&[0, 1, 1], "s"), shaped(&[0, 1, 1], "s")],
        };
        let len = if i < 25 { 2 } else { 3 };
        let ws: Vec<(u32, u32)> = if len == 2 { vec![PAIRS[(i % 5) as usize], PAIRS[(i / 5) as usize]] } else { let i = i - 25; vec![PAIRS[(i % 5) as usize], PAIRS[(i / 5 % 5) as usize], PAIRS[(i / 25) as usize]] };
        let steps: Vec<(Production, usize)> = ps.into_iter().take(len).map(|p| (p, 1)).collect();
        let probs: Vec<Vec<f64>> = steps.iter().zip(&ws).map(|((p, _), (r, n))| weight_probs(p, *r, *n)).collect();
        // a multiple of every total and of every number of alternatives
        distribution(
            &|| Weighted::from_seed(7, 5, seed_of(1)),
            &|s| Weighted::from_seed(7, 5, seed_of(s)),
            &steps,
            &|k| {
                let t: u32 = steps[k].0.rhs_iter().map(|e| if e.terms_iter().any(|t| *t == steps[k].0.lhs) { ws[k].0 } else { ws[k].1 }).sum();
                if t == 0 { steps[k].0.len() } else { t as usize }
            },
            &|h| probs[h.len()].clone(),
            &|s: &mut Weighted, k| (s.recursive_weight, s.non_recursive_weight) = ws[k],
            1e-9,
            cx,
        )
        .map_err(|e| format!("weights {ws:?} one after the other: {e}"))
    }));
    // the public fields changed between choices; constructors
    out.push(stage("constructors", "new, default and changed fields behave like the seeded strategy with the same weights", 16, move |i, cx| {
        let (r, n) = [(100, 1), (1, 100), (3, 0), (7, 7)][(i % 4) as usize];
        let p = shaped(&[1, 0, 4, 3], "s");
        let probs = weight_probs(&p, r, n);
        let total: usize = ((r + n) * 2) as usize;
        let mk = |_: u64| -> Weighted {
            match i / 4 {
                0 => Weighted::new(r, n),
                1 => {
                    let mut w = Weighted::default();
                    w.recursive_weight = r;
                    w.non_recursive_weight = n;
                    w
                }
                2 if (r, n) == (100, 1) => Weighted::default(),
                _ => {
                    let mut w = Weighted::from_seed(n, r, [1; 32]);
                    let _ = w.choose(&shaped(&[0, 1], "s"), 0);
                    w.recursive_weight = r;
                    w.non_recursive_weight = n;
                    w
                }
            }
        };
        distribution(&|| mk(0), &|s| Weighted::from_seed(r, n, seed_of(s)), &[(p, 0)], &|_| total, &|_| probs.clone(), &|_, _| (), 1e-9, cx)
            .map_err(|e| format!("weights ({r},{n}), constructor {}: {e}", i / 4))
    }));
    // through generation: the probability of every sentence
    let u = small_split();
    let nu = u.count();
    out.push(stage("whole-sentences", u.bounds(), nu * 3, move |mut i, cx| {
        let (r, n): (u32, u32) = [(1, 2), (2, 1), (0, 1)][digit(&mut i, 3) as usize];
        let g = u.get(i);
        if !g.reachable(g.start()).is_subset(&generable(&g)) {
            return Ok(());
        }
        let gram = g.to_bnf();
        let cap = 4;
        // expansions the strategy is asked for, with their draws
        every(cap, 2000, |script| {
            let mut st = Driven {
                inner: Weighted::from_seed(r, n, [1; 32]),
                script: script.clone(),
                units: |p| p.len().max(1),
                log: Rc::default(),
            };
            let _ = gram.generate_seeded_with_strategy(&mut st);
            cx.states += 1;
            for e in st.log.borrow().iter() {
                cx.transitions += 1;
                if let Ev::Choose { nt, alts, took: Some(k), .. } = e {
                    let lhs = Term::Nonterminal(nt.clone());
                    let w: Vec<u32> = alts.iter().map(|a| if a.contains(&lhs) { r } else { n }).collect();
                    if w[*k] == 0 && w.iter().any(|x| *x > 0) {
                        return Err(format!("{}Weighted({r},{n}): <{nt}> used a zero-weight alternative", g.show()));
                    }
                    let id = g.nn.iter().position(|x| x == nt).ok_or("unknown symbol")?;
                    if alts.len() != g.alts_of(id).len() {
                        return Err(format!("{}<{nt}> is offered {} alternatives", g.show(), alts.len()));
                    }
                }
            }
            cx.traces += 1;
            Ok(())
        })?;
        Ok(())
    }));
    out.push(huge_weights(tier));
    out.push(after_many(tier, |s| Weighted::from_seed(3, 2, seed_of(s)), |p, _| weight_probs(p, 3, 2), |p, _| p.rhs_iter().map(|e| if e.terms_iter().any(|t| *t == p.lhs) { 3 } else { 2 }).sum()));
    out
}

// ---------------------------------------------------------------- sizes far beyond ordinary use

/// One derivation, one dimension blown up: the sentence is known.
fn huge_derivations(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-derivations", format!("{} sizes up to {}: characters of a terminal, symbols in a row, productions, alternatives, other rules; every entry point and strategy", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 7, move |mut i, cx| {
        let kind = digit(&mut i, 7);
        let n = ns[i as usize];
        let (g, want): (Rg, String) = match kind {
            0 => {
                let long: String = (0..n).map(|i| [' ', 'a', '\n', '表', '\'', '<'][i % 6]).collect();
                let want = format!("{long}|{long}");
                (Rg { tn: vec![long, "|".into()], nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0), T(1), T(0)]])] }, want)
            }
            1 => {
                let want = (0..n).map(|i| if i % 2 == 0 { "x " } else { "y" }).collect();
                (Rg { tn: strs(&["x ", "y"]), nn: strs(&["S", "A"]), prods: vec![(0, vec![(0..n).map(|i| if i % 2 == 0 { N(1) } else { T(1) }).collect()]), (1, vec![vec![T(0)]])] }, want)
            }
            2 => (Rg { tn: strs(&["z"]), nn: strs(&["S"]), prods: vec![(0, vec![vec![T(0), T(0)]]); n] }, "zz".into()),
            3 => (Rg { tn: strs(&["z", "zz"]), nn: strs(&["S"]), prods: vec![(0, (0..n).map(|i| if i % 2 == 0 { vec![T(0), T(0)] } else { vec![T(1)] }).collect())] }, "zz".into()),
            4 => {
                // the rule that matters stands behind n others
                let mut prods: Vec<(usize, Vec<Vec<Sym>>)> = vec![(0, vec![vec![T(0), N(1), T(0)]])];
                prods.extend((0..n).map(|i| (2 + i, vec![vec![T(1), N(2 + i)], vec![T(1)]])));
                prods.push((1, vec![vec![T(0)]]));
                let mut nn = strs(&["S", "A"]);
                nn.extend((0..n).map(|i| format!("A{i}")));
                (Rg { tn: strs(&["z", "no"]), nn, prods }, "zzz".into())
            }
            5 => {
                // two names of n characters that differ at the end only
                let long: String = "abc-defg ".chars().cycle().take(n).collect();
                let nn = vec!["S".to_string(), format!("{long}1"), format!("{long}2")];
                (Rg { tn: strs(&["1", "2"]), nn, prods: vec![(0, vec![vec![N(1), N(2)]]), (1, vec![vec![T(0)]]), (2, vec![vec![T(1)]])] }, "12".into())
            }
            _ => {
                // an undefined name stands for itself
                let long: String = "abc-defg <é".chars().cycle().take(n).collect();
                let want = format!("z<{long}>z");
                let g = Rg { tn: strs(&["z"]), nn: vec!["S".into(), long], prods: vec![(0, vec![vec![T(0), N(1), T(0)], vec![T(0)]])] };
                cx.states += 1;
                cx.transitions += 1;
                return match g.to_bnf().generate_seeded_with_strategy(&mut Fixed { left: 1, max_depth: 0 }) {
                    Ok(s) if s == want => Ok(()),
                    r => Err(format!("undefined name of {n} characters: {:?}", r.map(|s| clip(&s)))),
                };
            }
        };
        scaled_case(&g, &want, cx).map_err(|e| format!("[kind {kind}, size {n}] {e}"))
    })
    .soft()
}

/// One choice among many open alternatives, at about 150 of the equally spaced draws: always an
/// open one, and neighbouring draws give different ones.
fn probe_uniform<S: GenerationStrategy>(mk: &dyn Fn() -> S, p: &Production, depth: usize, open: &[bool], cx: &mut Cx) -> Res {
    let m = open.iter().filter(|o| **o).count();
    let single = {
        let mut st = mk();
        draws(|| {
            st.choose(p, depth);
        }) <= 1
    };
    let places: BTreeSet<usize> = (0..50.min(m)).chain(m.saturating_sub(50)..m).chain((m / 2).saturating_sub(25)..(m / 2 + 25).min(m)).collect();
    let mut first = None;
    for residue in [false, true] {
        let mut hit: BTreeMap<usize, usize> = BTreeMap::new();
        let mut clash = None;
        for d in &places {
            let d = *d;
            let mut st = mk();
            rand::mc_oracle::set(Some(Box::new(move |bits| Some(if residue { d as u64 } else { grid(d, m, bits) }))));
            let _o = Oracle;
            let Some(x) = st.choose(p, depth).and_then(|e| index_of(p, e)) else { return Err("nothing chosen".into()) };
            cx.transitions += 1;
            if !open[x] {
                return Err(format!("alternative {x} must never be chosen, but is"));
            }
            if let Some(o) = hit.insert(x, d) {
                clash.get_or_insert(format!("draws {o} and {d} of {m} both give alternative {x}"));
            }
        }
        cx.states += 1;
        match clash {
            None => {
                cx.traces += 1;
                return Ok(());
            }
            Some(c) => {
                first.get_or_insert(c);
            }
        }
    }
    if single && high_decides(mk, &(p.clone(), depth), &|_, _| ()) { Err(first.unwrap_or_default()) } else { Ok(()) }
}

fn huge_uniform(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-uniform", format!("{} numbers of alternatives up to {}: one choice at 150 places of the range", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 2, move |mut i, cx| {
        let depth = digit(&mut i, 2) as usize * 7;
        let n = ns[i as usize];
        probe_uniform(&|| mk_walk(1), &of_len(n, "s"), depth, &vec![true; n], cx).map_err(|e| format!("RandomWalk, {n} alternatives: {e}"))
    })
    .soft()
}

/// Each of the first, last and middle alternatives of n is generated by some draw.
fn huge_reach(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-reach", format!("{} numbers of alternatives up to {} in one production, one each, or in two halves: 60 of them asked for and generated", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 3, move |mut i, cx| {
        let kind = digit(&mut i, 3);
        let n = ns[i as usize];
        let tn: Vec<String> = (0..n).map(|k| format!("w{k};")).collect();
        let alts: Vec<Vec<Sym>> = (0..n).map(|k| vec![T(k)]).collect();
        let mut prods = match kind {
            0 => vec![(1, alts)],
            1 => alts.into_iter().map(|a| (1, vec![a])).collect(),
            _ => vec![(1, alts[..n / 2].to_vec()), (2, vec![vec![T(0)]]), (1, alts[n / 2..].to_vec())],
        };
        prods.insert(0, (0, vec![vec![N(1)]]));
        let g = Rg { tn, nn: strs(&["S", "A", "B"]), prods };
        let gram = g.to_bnf();
        for k in (0..20).chain((0..20).map(|k| n * k / 20)).chain(n - 20..n) {
            struct Nth(usize, usize);
            impl GenerationStrategy for Nth {
                fn choose<'p>(&mut self, p: &'p Production, _: usize) -> Option<&'p Expression> {
                    self.1 += p.len();
                    if p.len() == 1 { p.rhs_iter().next() } else { p.rhs_iter().nth(self.0) }
                }
            }
            let mut st = Nth(k, 0);
            let r = gram.generate_seeded_with_strategy(&mut st);
            cx.states += 1;
            cx.transitions += 1;
            cx.traces += 1;
            match r {
                Ok(s) if s == format!("w{k};") => {}
                r => return Err(format!("{n} alternatives (kind {kind}), alternative {k} asked for: {:?}", r.map(|s| clip(&s)))),
            }
            if st.1 != n + 1 && st.1 != n {
                return Err(format!("{n} alternatives (kind {kind}): {} were offered", st.1 - 1));
            }
        }
        Ok(())
    })
    .soft()
}

/// What a strategy chose long ago does not matter: n choices, then one in all ways.
fn after_many<S: GenerationStrategy + 'static>(tier: Tier, mk: impl Fn(u64) -> S + Send + Sync + 'static, want: impl Fn(&Production, usize) -> Vec<f64> + Send + Sync + 'static, units: impl Fn(&Production, usize) -> usize + Send + Sync + 'static) -> Stage {
    let ns = huge(tier);
    stage("after-many-choices", format!("one strategy, {} numbers of choices up to {}, then one choice in all ways", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 4, move |mut i, cx| {
        let kind = digit(&mut i, 4) as usize;
        let n = ns[i as usize];
        let p = shaped([&[0, 1][..], &[1, 0, 5], &[3, 0, 4, 1], &[0, 0]][kind], "s");
        let q = shaped(&[1, 0, 3], "q");
        let used = |s: u64| {
            let mut st = mk(s);
            for k in 0..n {
                let _ = st.choose(if k % 3 == 0 { &q } else { &p }, k % 5);
            }
            st
        };
        for depth in [0, 2] {
            let w = want(&p, depth);
            let w2 = w.clone();
            let u = units(&p, depth);
            // (choices made of several draws are decided at smaller numbers of choices)
            let single = {
                let mut st = mk(3);
                draws(|| {
                    st.choose(&p, depth);
                }) <= 1
            };
            if !single {
                continue;
            }
            distribution(&|| used(1), &used, &[(p.clone(), depth)], &|_| u, &move |_| w2.clone(), &|_, _| (), 1e-6, cx).map_err(|e| format!("after {n} choices, {p}, depth {depth}: {e}"))?;
        }
        Ok(())
    })
    .soft()
}

/// Values and names of any length reach the callback unchanged, and are rejected or kept as told.
fn huge_callback(tier: Tier) -> Stage {
    let mut ns = huge(tier);
    ns.extend(sizes(70, 1100));
    stage("huge-values", format!("{} lengths up to {} of names and values: accepted, or rejected once at each place", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 5, move |mut i, cx| {
        let reject = digit(&mut i, 5) as usize;
        let n = ns[i as usize];
        let long: String = "ab c<é".chars().cycle().take(n).collect();
        let name: String = "long-name ".chars().cycle().take(n).collect();
        let g = Rg { tn: vec![long.clone(), "|".into()], nn: vec!["S".into(), name.clone()], prods: vec![(0, vec![vec![N(1), T(1), N(1)]]), (1, vec![vec![T(0)]])] };
        let gram = g.to_bnf();
        let value = format!("{long}|{long}");
        // the calls, with the k-th rejected: A A S, or A A A S, ...
        let mut want: Vec<(String, String)> = vec![];
        let (a, s) = ((name.clone(), long.clone()), ("S".to_string(), value.clone()));
        match reject {
            0 => want.extend([a.clone(), a, s]),
            1 | 2 => want.extend([a.clone(), a.clone(), a, s]),
            3 => want.extend([a.clone(), a.clone(), s.clone(), a.clone(), a, s]),
            _ => want.extend([a.clone(), a.clone(), s.clone(), a.clone(), a.clone(), a, s]),
        }
        for e in 0..3 {
            let log = RefCell::new(vec![]);
            let cb = |nt: &str, v: &str| {
                log.borrow_mut().push((nt.to_string(), v.to_string()));
                let k = log.borrow().len();
                if reject == 4 { k != 3 && k != 4 } else { k != reject }
            };
            let r = match e {
                0 => entry(1, &gram, n as u8, cb),
                1 => entry(3, &gram, n as u8, cb),
                _ => gram.generate_seeded_callback_with_strategy(cb, &mut DepthBounded::from_seed(3, [n as u8; 32])),
            };
            cx.states += 1;
            cx.transitions += want.len() as u64;
            cx.traces += 1;
            let log = log.into_inner();
            if log != want {
                let at = log.iter().zip(&want).position(|(x, y)| x != y);
                return Err(format!("length {n}, rejecting call {reject}: {} calls, expected {}, first difference at {at:?}", log.len(), want.len()));
            }
            match r {
                Ok(s) if s == value => {}
                r => return Err(format!("length {n}, rejecting call {reject}: result {:?}", r.map(|s| clip(&s)))),
            }
        }
        Ok(())
    })
    .soft()
}

/// Depth bound, coverage and weights with tens of thousands of alternatives.
fn huge_depth(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-alternatives", format!("{} numbers of alternatives up to {}, the terminal ones at the end, every other place or one place; a long one", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 8, move |mut i, cx| {
        let kind = digit(&mut i, 4);
        let depth = digit(&mut i, 2) as usize;
        let n = ns[i as usize];
        if kind == 3 {
            // alternatives of n terms, a nonterminal at the end of one
            let t = |k: usize| Term::Terminal(format!("{}", k % 7));
            let all: Vec<Term> = (0..n).map(t).collect();
            let mut with = all.clone();
            with[n - 1] = Term::Nonterminal("s".into());
            let mut other = all.clone();
            other[n / 2] = Term::Nonterminal("q".into());
            let p = Production::from_parts(Term::Nonterminal("s".into()), vec![Expression::from_parts(with), Expression::from_parts(all), Expression::from_parts(other)]);
            return depth_dist(1, &[(p, depth)], cx).map_err(|e| clip_to(e, 300));
        }
        let ids: Vec<usize> = (0..n)
            .map(|k| {
                let term = match kind {
                    0 => k >= n / 2,
                    1 => k % 2 == 1,
                    _ => k == n - 1,
                };
                if term { [0, 2, 5][k % 3] } else { [1, 3, 4, 6][k % 4] }
            })
            .collect();
        let p = shaped(&ids, "s");
        let open = depth_eligible(&p, depth, 1);
        probe_uniform(&|| DepthBounded::from_seed(1, seed_of(1)), &p, depth, &open, cx).map_err(|e| format!("DepthBounded(1), {n} alternatives (kind {kind}), depth {depth}: {e}"))
    })
    .soft()
}

fn clip_to(s: String, n: usize) -> String {
    s.chars().rev().take(n).collect::<Vec<_>>().into_iter().rev().collect()
}

fn huge_coverage(tier: Tier) -> Vec<Stage> {
    let ns = huge(tier);
    let ms = ns.clone();
    vec![
        stage("huge-alternatives", format!("{} numbers of alternatives up to {}: the first 200 expansions all differ; draws low, high, middle, alternating, real", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 5, move |mut i, cx| {
            let pat = digit(&mut i, 5);
            let n = ns[i as usize];
            let p = of_len(n, "s");
            let q = of_len(3, "q");
            let mut st = CoverageGuided::from_seed(seed_of(i));
            let mut k = 0usize;
            if pat < 4 {
                rand::mc_oracle::set(Some(Box::new(move |bits| {
                    k += 1;
                    Some(match pat {
                        0 => grid(0, 1 << 20, bits),
                        1 => grid((1 << 20) - 1, 1 << 20, bits),
                        2 => grid(1 << 19, 1 << 20, bits),
                        _ => grid(if k % 2 == 0 { 0 } else { (1 << 20) - 1 }, 1 << 20, bits),
                    })
                })));
            }
            let _o = Oracle;
            let mut seen = BTreeSet::new();
            for step in 0..200.min(n) {
                let Some(x) = st.choose(&p, step % 3).and_then(|e| index_of(&p, e)) else { return Err("nothing chosen".into()) };
                let _ = st.choose(&q, 0);
                cx.transitions += 1;
                if !seen.insert(x) {
                    return Err(format!("{n} alternatives, draws {pat}, expansion {step}: alternative {x} chosen again"));
                }
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        })
        .soft(),
        stage("huge-symbols", format!("{} numbers of symbols up to {} with 3 alternatives, expanded round robin; draws low, high", ms.len(), ms[0]), ms.len() as u64 * 2, move |mut i, cx| {
            let pat = digit(&mut i, 2);
            let m = ms[i as usize];
            let ps: Vec<Production> = (0..m).map(|k| of_len(3, &format!("n{k}"))).collect();
            let mut st = CoverageGuided::from_seed(seed_of(i));
            rand::mc_oracle::set(Some(Box::new(move |bits| Some(grid(if pat == 0 { 0 } else { (1 << 12) - 1 }, 1 << 12, bits)))));
            let _o = Oracle;
            let mut seen = vec![0u8; m];
            for round in 0..3 {
                for (k, p) in ps.iter().enumerate() {
                    let Some(x) = st.choose(p, 0).and_then(|e| index_of(p, e)) else { return Err("nothing chosen".into()) };
                    cx.transitions += 1;
                    if seen[k] >> x & 1 == 1 {
                        return Err(format!("{m} symbols, draws {pat}, round {round}: alternative {x} of symbol {k} chosen again"));
                    }
                    seen[k] |= 1 << x;
                }
            }
            cx.states += m as u64;
            cx.traces += 1;
            Ok(())
        })
        .soft(),
    ]
}

fn huge_weights(tier: Tier) -> Stage {
    let ns = huge(tier);
    stage("huge-alternatives", format!("{} numbers of alternatives up to {} with equal weights, and alternatives of that many terms with the mention at the end", ns.len(), ns.iter().max().unwrap()), ns.len() as u64 * 3, move |mut i, cx| {
        let kind = digit(&mut i, 3);
        let n = ns[i as usize];
        if kind == 2 {
            let lhs = Term::Nonterminal("s".into());
            let all: Vec<Term> = (0..n).map(|k| Term::Terminal(format!("{}", k % 7))).collect();
            let mut with = all.clone();
            with[n - 1] = lhs.clone();
            let p = Production::from_parts(lhs, vec![Expression::from_parts(all), Expression::from_parts(with)]);
            return weight_dist(&[(p, 0)], 3, 1, cx).map_err(|e| clip_to(e, 300));
        }
        let p = of_len(n, "s");
        let w = [1, u32::MAX][kind as usize];
        probe_uniform(&|| Weighted::from_seed(w, w, seed_of(1)), &p, 0, &vec![true; n], cx).map_err(|e| format!("Weighted({w},{w}), {n} alternatives: {e}"))
    })
    .soft()
}

/// Two equally seeded runs stay the same for tens of thousands of sentences.
fn long_sequences(tier: Tier) -> Stage {
    let n = tier.pick(70_000, 300_000);
    let gs: Vec<Rg> = c16_grammars();
    let k = gs.len() as u64;
    stage("long-sequences", format!("{n} sentences in a row, twice, every strategy, {k} grammars"), k * STRATS.len() as u64, move |mut i, cx| {
        let st = STRATS[digit(&mut i, STRATS.len() as u64) as usize];
        let g = gs[i as usize].to_bnf();
        let a = sequence(&g, st, seed_of(7), n, &mut |_| ());
        let b = sequence(&g, st, seed_of(7), n, &mut |_| ());
        cx.states += 1;
        cx.transitions += 2 * n as u64;
        cx.traces += 1;
        if let Some(at) = a.iter().zip(&b).position(|(x, y)| x != y) {
            return Err(format!("{st:?}: sentence {at} differs: {:?} and {:?}", a[at], b[at]));
        }
        Ok(())
    })
    .soft()
}
