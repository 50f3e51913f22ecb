//! C24: what the library does, as a list of observations, under the feature set it was built
//! with. `feat TIER OUT [trace]` writes one record per case; `feat TIER show GROUP INDEX [trace]`
//! prints the observation itself. The driver compares the records of all feature sets.
#![allow(dead_code)]
#[path = "../../mc/src/odd.rs"]
mod odd;
#[path = "../../mc/src/refg.rs"]
mod refg;
#[path = "../../mc/src/run.rs"]
mod run;
#[path = "../../mc/src/uni.rs"]
mod uni;

use bnf::{
    BNF, CoverageGuided, DepthBounded, Error, Expression, Grammar, GenerationStrategy, ParseTree, Production,
    RandomWalk, Term, Weighted,
};
use rand::{SeedableRng, rngs::StdRng};
use refg::*;
use run::{Seqs, Tier};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

#[cfg(feature = "tracing")]
mod listen {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering};
    use tracing::field::{Field, Visit};
    /// A subscriber that wants everything and formats everything.
    pub struct All(AtomicU64);
    impl All {
        pub fn install() {
            tracing::subscriber::set_global_default(All(AtomicU64::new(1))).expect("subscriber");
        }
    }
    #[derive(Default)]
    struct Render(String);
    impl Visit for Render {
        fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
            self.0.clear();
            let _ = write!(self.0, "{}={v:?}", f.name());
        }
    }
    impl tracing::Subscriber for All {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            a.record(&mut Render::default());
            tracing::span::Id::from_u64(self.0.fetch_add(1, Ordering::Relaxed))
        }
        fn record(&self, _: &tracing::span::Id, v: &tracing::span::Record<'_>) {
            v.record(&mut Render::default());
        }
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            e.record(&mut Render::default());
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
}

const TOKENS: [&str; 14] =
    ["<a>", "::=", "|", "'x'", "\"y;\"", "(", ")", "[", "]", "<b c>", ";c\n", "''", "a", "="];
const CHARS: [&str; 18] =
    ["<", ">", "a", ":", "=", "|", "/", "'", "\"", "(", ")", "[", "]", ";", " ", "\n", "é", "0"];

fn variant(e: &Error) -> &'static str {
    match e {
        Error::ParseError(_) => "ParseError",
        Error::GenerateError(_) => "GenerateError",
        Error::ValidationError(_) => "ValidationError",
        #[allow(unreachable_patterns)]
        _ => "other error",
    }
}

fn dump(g: &Grammar) -> String {
    g.productions_iter().map(|p| format!("{:?}={:?};", p.lhs, p.rhs_iter().map(|e| e.terms_iter().collect::<Vec<_>>()).collect::<Vec<_>>())).collect()
}

fn of<T>(r: Result<T, Error>, f: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(v) => f(&v),
        Err(e @ Error::ParseError(_)) => variant(&e).to_string(),
        Err(e) => format!("{} {e}", variant(&e)),
    }
}

/// Observations of a text that must agree between all feature sets.
fn text_all(s: &str) -> String {
    let mut o = String::new();
    let _ = write!(o, "bnf {}\n", of(Grammar::parse_from::<BNF>(s), |g| format!("{} shown {g}", dump(g))));
    let _ = write!(o, "term {}\n", of(s.parse::<Term>(), |t| format!("{t:?} {t}")));
    let _ = write!(o, "expr {}\n", of(s.parse::<Expression>(), |e| format!("{e:?} {e}")));
    let _ = write!(o, "prod {}\n", of(s.parse::<Production>(), |p| format!("{p:?} {p}")));
    o
}

/// Whether a text is in BNF notation: after white space and comments comes a `<`.
fn is_bnf(mut s: &str) -> bool {
    loop {
        s = s.trim_start();
        match s.strip_prefix(';') {
            Some(rest) => match rest.find(['\n', '\r']) {
                Some(i) => s = &rest[i..],
                None => return false,
            },
            None => return s.starts_with('<'),
        }
    }
}

/// The auto-detected reading: with ABNF support more texts may be readable that are not BNF.
fn text_auto(s: &str) -> Result<String, String> {
    match s.parse::<Grammar>() {
        Ok(g) => Ok(format!("{} shown {g}", dump(&g))),
        Err(e) if is_bnf(s) => Ok(variant(&e).to_string()),
        Err(e) => Err(variant(&e).to_string()),
    }
}

/// All small histories of edits, by number.
const EDITS: usize = 12;
fn edits(ops: &[usize]) -> String {
    let mut o = String::new();
    let t = |k: usize| if k % 2 == 0 { Term::Terminal("x".into()) } else { Term::Nonterminal("a".into()) };
    let mut e = Expression::from_parts(vec![t(0)]);
    let mut p = Production::from_parts(t(1), vec![e.clone()]);
    let mut g = Grammar::from_parts(vec![p.clone()]);
    for op in ops {
        match op {
            0 => e.add_term(t(0)),
            1 => e.add_term(t(1)),
            2 => o += &format!("{:?}", e.remove_term(&t(0))),
            3 => e = t(1) + e,
            4 => e = e + Expression::from_parts(vec![t(1), t(0)]),
            5 => p.add_to_rhs(e.clone()),
            6 => o += &format!("{:?}", p.remove_from_rhs(&e)),
            7 => g.add_production(p.clone()),
            8 => o += &format!("{:?}", g.remove_production(&p)),
            9 => p.rhs_iter_mut().for_each(|e| e.terms_iter_mut().for_each(|t| *t = Term::Terminal("y".into()))),
            10 => g.productions_iter_mut().for_each(|p| p.lhs = t(1)),
            _ => g = g.clone(),
        }
        let _ = write!(o, "{e:?} {e} {p:?} {g:?}\n{}\n", dump(&g));
    }
    let _ = write!(o, "{g} valid {}", of(g.validate(), |_| "yes".into()));
    o
}

struct Stop;

/// Run something that may draw random numbers, at most `cap` of them.
fn capped(cap: u32, f: impl FnOnce() -> String) -> String {
    let mut left = cap;
    rand::mc_oracle::set(Some(Box::new(move |_| {
        if left == 0 {
            resume_unwind(Box::new(Stop));
        }
        left -= 1;
        None
    })));
    let r = catch_unwind(AssertUnwindSafe(f));
    rand::mc_oracle::set(None);
    match r {
        Ok(s) => s,
        Err(p) if p.is::<Stop>() => "stopped".into(),
        Err(p) => resume_unwind(p),
    }
}

fn tree(t: &ParseTree, o: &mut String) {
    let _ = write!(o, "{}|{t}|{}\n", canon(t), t.mermaid());
}

/// Everything one does with a grammar.
#[allow(deprecated)]
fn grammar_obs(g: &Rg, inputs: &[String], seeds: u8, draws: u32) -> String {
    let gram = g.to_bnf();
    let mut o = String::new();
    let shown = gram.to_string();
    let _ = write!(o, "shown {shown}\ndump {}\n", dump(&gram));
    let _ = write!(o, "read back {}\n", of(Grammar::parse_from::<BNF>(&shown), dump));
    let _ = write!(o, "valid {}\n", of(gram.validate(), |_| "yes".into()));
    match gram.build_parser() {
        Err(e) => {
            let _ = write!(o, "no parser {} {e}\n", variant(&e));
        }
        Ok(p) => {
            for i in inputs {
                let rec = Rec::new(g, i);
                let n = if rec.search_finite(g.start()) {
                    200
                } else if rec.accepts(g.start()) {
                    (rec.levels(g.start(), 1500).affordable(1500) as usize).min(12)
                } else {
                    0
                };
                if n == 0 {
                    continue;
                }
                let _ = write!(o, "parse {i:?}\n");
                for t in p.parse_input(i).take(n) {
                    tree(&t, &mut o);
                }
                let _ = write!(o, "old {}\n", gram.parse_input(i).take(n).map(|t| canon(&t)).collect::<String>());
                for t in 0..g.nn.len() {
                    let term = Term::Nonterminal(g.nn[t].clone());
                    if rec.search_finite(t) && g.prods.iter().any(|p| p.0 == t) {
                        let _ = write!(o, "from {t} {}\n", p.parse_input_starting_with(i, &term).take(n).map(|t| canon(&t)).collect::<String>());
                    }
                }
            }
        }
    }
    // symbols that can only loop make generation loop (K2)
    let fine = capped(0, || String::new()).is_empty() && all_terminate(g);
    if fine {
        for s in 0..seeds {
            let seed = [s; 32];
            let calls = std::cell::Cell::new(0u32);
            let gen_with = |name: &str, o: &mut String, f: &mut dyn FnMut(&mut StdRng) -> Result<String, Error>| {
                let r = capped(draws, || {
                    let mut rng = StdRng::from_seed(seed);
                    of(f(&mut rng), |s| s.clone())
                });
                let _ = write!(o, "{name} {r}\n");
            };
            gen_with("seeded", &mut o, &mut |r| gram.generate_seeded(r));
            gen_with("callback", &mut o, &mut |r| gram.generate_seeded_callback(r, |n, v| {
                // a rejected value need not cost a draw: count the calls too
                calls.set(calls.get() + 1);
                if calls.get() > draws {
                    resume_unwind(Box::new(Stop));
                }
                n != "A" || v.len() % 2 == 0
            }));
            struct Counted<S>(S, u32);
            impl<S: GenerationStrategy> GenerationStrategy for Counted<S> {
                fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
                    if self.1 == 0 {
                        resume_unwind(Box::new(Stop));
                    }
                    self.1 -= 1;
                    self.0.choose(p, depth)
                }
            }
            fn strat<S: GenerationStrategy>(gram: &Grammar, s: S) -> Result<String, Error> {
                let mut s = Counted(s, 4000);
                let a = gram.generate_seeded_with_strategy(&mut s)?;
                let b = gram.generate_seeded_with_strategy(&mut s)?;
                Ok(a + "," + &b)
            }
            gen_with("walk", &mut o, &mut |_| strat(&gram, RandomWalk::from_seed(seed)));
            gen_with("depth", &mut o, &mut |_| strat(&gram, DepthBounded::from_seed(2, seed)));
            gen_with("coverage", &mut o, &mut |_| strat(&gram, CoverageGuided::from_seed(seed)));
            gen_with("weighted", &mut o, &mut |_| strat(&gram, Weighted::from_seed(1, 3, seed)));
        }
    }
    o
}

/// Every symbol derives some string of terminals, and none has only an empty right-hand side.
fn all_terminate(g: &Rg) -> bool {
    let mut ok = vec![false; g.nn.len()];
    loop {
        let mut changed = false;
        for (l, alts) in &g.prods {
            if !ok[*l]
                && alts.iter().any(|a| {
                    a.iter().all(|s| match s {
                        Sym::N(n) => ok[*n],
                        Sym::T(_) => true,
                    })
                })
            {
                ok[*l] = true;
                changed = true;
            }
        }
        if !changed {
            return ok.iter().all(|x| *x);
        }
    }
}

/// One dimension made large: recursion on either side, nesting, chains, alternatives, terms.
fn long_grammars(n: usize) -> Vec<(String, Rg, String)> {
    use Sym::{N, T};
    let one = |tn: &[&str], alts: Vec<Vec<Sym>>| Rg { tn: uni::strs(tn), nn: uni::strs(&["S"]), prods: vec![(0, alts)] };
    let many: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    let mut chain: Vec<(usize, Vec<Vec<Sym>>)> = (0..n - 1).map(|i| (i, vec![vec![N(i + 1)]])).collect();
    chain.push((n - 1, vec![vec![T(0)]]));
    let words: Vec<String> = (0..n).map(|i| format!("w{i};")).collect();
    vec![
        ("left".into(), one(&["a"], vec![vec![N(0), T(0)], vec![T(0)]]), "a".repeat(n)),
        ("right".into(), one(&["a"], vec![vec![T(0), N(0)], vec![T(0)]]), "a".repeat(n)),
        ("nesting".into(), one(&["(", ")", ""], vec![vec![T(0), N(0), T(1)], vec![T(2)]]), "(".repeat(n) + &")".repeat(n)),
        ("chain".into(), Rg { tn: uni::strs(&["a"]), nn: many, prods: chain }, "a".into()),
        (
            "alternatives".into(),
            Rg { tn: words.clone(), nn: uni::strs(&["S"]), prods: vec![(0, (0..n).map(|i| vec![T(i)]).collect())] },
            format!("w{};", n - 1),
        ),
        (
            "productions".into(),
            Rg { tn: words.clone(), nn: uni::strs(&["S"]), prods: (0..n).map(|i| (0, vec![vec![T(i)]])).collect() },
            format!("w{};", n - 1),
        ),
        ("terms".into(), Rg { tn: words.clone(), nn: uni::strs(&["S"]), prods: vec![(0, vec![(0..n).map(T).collect()])] }, words.concat()),
        (
            "words".into(),
            Rg {
                tn: words.clone(),
                nn: uni::strs(&["S", "W"]),
                prods: vec![(0, vec![vec![N(1), N(0)], vec![N(1)]]), (1, (0..n).map(|i| vec![T(i)]).collect())],
            },
            words.iter().take(40).cloned().collect(),
        ),
    ]
}

struct Group {
    name: &'static str,
    bounds: String,
    n: u64,
    /// (record, readable): `readable` only matters for the auto-detected reading
    obs: Box<dyn Fn(u64) -> Vec<Result<String, String>>>,
}

fn groups(tier: Tier, traced: bool) -> Vec<Group> {
    let mut out: Vec<Group> = vec![];
    let text = |s: &str| vec![Ok(text_all(s)), text_auto(s)];
    let less = if traced { 1 } else { 0 };
    for (name, prefix, hi) in [
        ("texts after <a> ::=", "<a> ::= ", tier.pick(4, 5) - less),
        ("texts of tokens", "", tier.pick(4, 5) - less),
    ] {
        let seqs = Seqs { radix: TOKENS.len() as u64, lo: 0, hi };
        out.push(Group {
            name,
            bounds: format!("{prefix:?} + every sequence of at most {hi} of {TOKENS:?}"),
            n: seqs.count(),
            obs: Box::new(move |i| {
                let s: String = seqs.get(i).into_iter().map(|k| format!("{} ", TOKENS[k])).collect();
                text(&format!("{prefix}{s}"))
            }),
        });
    }
    let seqs = Seqs { radix: CHARS.len() as u64, lo: 0, hi: tier.pick(4, 4) - less };
    out.push(Group {
        name: "texts of characters",
        bounds: format!("\"<a>::=\" + every string of at most {} of {CHARS:?}", seqs.hi),
        n: seqs.count(),
        obs: Box::new(move |i| text(&format!("<a>::={}", seqs.get(i).into_iter().map(|k| CHARS[k]).collect::<String>()))),
    });
    let fam = uni::families(tier.pick(12, 30), tier.pick(5, 6));
    out.push(Group {
        name: "scaled grammars",
        bounds: format!("{} grammars, one dimension scaled", fam.len()),
        n: fam.len() as u64,
        obs: Box::new(move |i| {
            let (_, g, inputs) = &fam[i as usize];
            let inputs: Vec<String> = inputs.iter().filter(|s| s.len() <= 40).take(3).cloned().collect();
            vec![Ok(grammar_obs(g, &inputs, 2, 60))]
        }),
    });
    // other spellings
    let words: Vec<String> = odd::confusable();
    let k = words.len() as u64;
    let step = if traced { 7 } else { 1 };
    {
        let words = words.clone();
        out.push(Group {
            name: "confusable spellings",
            bounds: format!("every {step}. pair of {k} spellings as terminals, names and inputs, labels escaped"),
            n: k * k / step,
            obs: Box::new(move |i| {
                let (a, b) = (&words[((i * step) / k) as usize], &words[((i * step) % k) as usize]);
                let g = Rg {
                    tn: vec![a.clone(), b.clone()],
                    nn: vec!["S".into(), b.clone()],
                    prods: vec![(0, vec![vec![Sym::T(0), Sym::N(1)]]), (1, vec![vec![Sym::T(1)], vec![Sym::T(0)]])],
                };
                let ins = vec![a.clone() + b, a.clone() + a];
                let lab = bnf::escape_mermaid_label(&format!("{a}{b}"));
                let mut v = vec![Ok(grammar_obs(&g, &ins, 1, 60) + &lab)];
                v.extend(text(&format!("<{a}> ::= '{b}' \"{b}\" | <{a}{b}>")));
                v
            }),
        });
    }
    let odd_n = odd::ODD.len() as u64;
    out.push(Group {
        name: "odd pieces",
        bounds: format!("every {step}. pair of {odd_n} pieces foreign to the notation at 43 places"),
        n: odd_n * odd_n / step,
        obs: Box::new(move |i| {
            let c = format!("{}{}", odd::ODD[((i * step) / odd_n) as usize], odd::ODD[((i * step) % odd_n) as usize]);
            odd::placements(&c).iter().chain(&odd::part_placements(&c)).flat_map(|t| text(t)).collect()
        }),
    });
    // what comes before the first production decides how a text is read
    const LEAD: [&str; 10] = [" ", "\n", "\r", "\t", ";", ";c\n", ";<a>\r\n", "<", "\u{a0}", "a"];
    let seqs = Seqs { radix: LEAD.len() as u64, lo: 0, hi: tier.pick(4, 5) - less };
    out.push(Group {
        name: "leading layout",
        bounds: format!("every sequence of at most {} of {LEAD:?} before a BNF, an ABNF and a malformed text", seqs.hi),
        n: seqs.count(),
        obs: Box::new(move |i| {
            let lead: String = seqs.get(i).into_iter().map(|k| LEAD[k]).collect();
            ["<a> ::= 'x' | <a>\n<b> ::= ''", "a = 'x' / a\nb = ''", "a> = 'x'", "::= 'x'"]
                .iter()
                .flat_map(|t| text(&format!("{lead}{t}")))
                .collect()
        }),
    });
    let seqs = Seqs { radix: EDITS as u64, lo: 0, hi: tier.pick(4, 5) - less };
    out.push(Group {
        name: "edit histories",
        bounds: format!("every history of at most {} of {EDITS} edits", seqs.hi),
        n: seqs.count(),
        obs: Box::new(move |i| vec![Ok(edits(&seqs.get(i)))]),
    });
    // sizes
    let sizes: Vec<usize> = match (tier, traced) {
        (_, true) => vec![33, 65],
        (Tier::Quick, _) => vec![65, 129, 257],
        (Tier::Thorough, _) => vec![65, 129, 257, 513, 1025],
    };
    let longs: Vec<(String, Rg, String)> = sizes.iter().flat_map(|n| long_grammars(*n)).collect();
    out.push(Group {
        name: "large grammars and inputs",
        bounds: format!("{} grammars of sizes {sizes:?}, 4000 draws", longs.len()),
        n: longs.len() as u64,
        obs: Box::new(move |i| {
            let (_, g, input) = &longs[i as usize];
            vec![Ok(grammar_obs(g, &[input.clone()], 2, 4000))]
        }),
    });
    // tracing formats every step: fewer and shorter inputs there
    let us = match (tier, traced) {
        (Tier::Quick, true) => vec![uni::two_nt_split(1), uni::multibyte((1, 1), 1)],
        (Tier::Quick, false) => {
            vec![uni::two_nt_split(3), uni::multibyte((1, 1), 2), uni::nullable_runs(1, 3), uni::one_nt_overlap(3)]
        }
        (Tier::Thorough, true) => vec![uni::two_nt_split(2), uni::multibyte((1, 1), 2), uni::nullable_runs(1, 2)],
        (Tier::Thorough, false) => vec![
            uni::two_nt_split(4),
            uni::multibyte((1, 1), 3),
            uni::nullable_runs(1, 4),
            uni::one_nt_overlap(3),
            uni::three_nt(1, 3),
        ],
    };
    for u in us {
        out.push(Group {
            name: u.name,
            bounds: u.bounds(),
            n: u.count(),
            obs: Box::new(move |i| vec![Ok(grammar_obs(&u.get(i), &u.inputs, 2, 60))]),
        });
    }
    out
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn observe(g: &Group, i: u64) -> Vec<Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(|| (g.obs)(i))) {
        Ok(v) => v,
        Err(_) => vec![Ok(format!("panic: {}", run::last_panic()))],
    }
}

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    // the smaller universes, for the comparison of a traced with an untraced run
    let small = args.iter().any(|a| a == "small");
    #[cfg(feature = "tracing")]
    if args.iter().any(|a| a == "trace") {
        listen::All::install();
    }
    let work = move || {
        let gs = groups(tier, small);
        if args[2] == "show" {
            let g = &gs[args[3].parse::<usize>().unwrap()];
            for r in observe(g, args[4].parse().unwrap()) {
                println!("{r:?}");
            }
            return;
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output file"));
        let mut meta = vec![];
        for g in &gs {
            let mut recs = 0u64;
            for i in 0..g.n {
                for r in observe(g, i) {
                    let (k, s) = match &r {
                        Ok(s) => (1u8, s),
                        Err(s) => (0u8, s),
                    };
                    f.write_all(&[k]).unwrap();
                    f.write_all(&hash(s).to_le_bytes()).unwrap();
                    recs += 1;
                }
            }
            meta.push(serde_json::json!({"group": g.name, "bounds": g.bounds, "cases": g.n, "records": recs}));
        }
        f.flush().unwrap();
        println!("{}", serde_json::Value::from(meta));
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
