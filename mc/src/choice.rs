//! Stateless exploration of choices: an execution asks a `Script` for every decision; the
//! explorer re-runs the execution until every combination of answers has been taken.
use bnf::{Expression, GenerationStrategy, Production, Term};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::rc::Rc;

#[derive(Default)]
struct Inner {
    prefix: Vec<usize>,
    taken: Vec<(usize, usize)>,
    cap: usize,
    aborted: bool,
    /// choices made since the last decision
    idle: usize,
    /// some choice took more than one decision
    multi: bool,
}

#[derive(Clone, Default)]
pub struct Script(Rc<RefCell<Inner>>);

/// Payload used to leave an execution whose decision budget is used up.
pub struct OutOfChoices;

impl Script {
    pub fn new(cap: usize) -> Script {
        Script(Rc::new(RefCell::new(Inner { cap, ..Inner::default() })))
    }
    /// One of `0..n`, or `None` when the budget of decisions is used up (from then on always).
    pub fn decide(&self, n: usize) -> Option<usize> {
        let mut s = self.0.borrow_mut();
        if n == 0 || s.aborted || s.taken.len() >= s.cap {
            s.aborted = true;
            return None;
        }
        let at = s.taken.len();
        let c = s.prefix.get(at).copied().unwrap_or(0);
        assert!(c < n, "exploration diverged: answer {c} of {n} at decision {at}");
        s.taken.push((c, n));
        s.idle = 0;
        Some(c)
    }
    /// A choice was made; gives up on executions that go on and on without a decision (a rule
    /// that can only loop, under a strategy that does not draw when there is nothing to choose).
    pub fn tick(&self) {
        let mut s = self.0.borrow_mut();
        s.idle += 1;
        if s.idle > 3000 {
            s.aborted = true;
        }
    }
    /// Did some choice of a driven strategy, in any execution so far, take more than one draw?
    pub fn multi(&self) -> bool {
        self.0.borrow().multi
    }
    pub fn aborted(&self) -> bool {
        self.0.borrow().aborted
    }
    pub fn taken(&self) -> Vec<(usize, usize)> {
        self.0.borrow().taken.clone()
    }
    /// Start over with the same answers.
    pub fn rewind(&self) {
        let mut s = self.0.borrow_mut();
        s.prefix = s.taken.iter().map(|t| t.0).collect();
        s.taken.clear();
        s.aborted = false;
        s.idle = 0;
    }
    /// Move to the next combination of answers.
    fn advance(&self) -> bool {
        let mut s = self.0.borrow_mut();
        while let Some((c, n)) = s.taken.pop() {
            if c + 1 < n {
                s.prefix = s.taken.iter().map(|t| t.0).collect();
                s.prefix.push(c + 1);
                s.taken.clear();
                s.aborted = false;
                s.idle = 0;
                return true;
            }
        }
        false
    }
}

/// Run `exec` under every combination of at most `cap` answers; gives up (returns `false`)
/// after `max_runs` executions.
pub fn every(cap: usize, max_runs: u64, mut exec: impl FnMut(&Script) -> Result<(), String>) -> Result<bool, String> {
    let script = Script::new(cap);
    let mut runs = 0;
    loop {
        if runs == max_runs {
            return Ok(false);
        }
        runs += 1;
        exec(&script)?;
        if !script.advance() {
            return Ok(true);
        }
    }
}

/// The k-th of `m` equally spaced values of a draw of the given width. Its remainder modulo `m`
/// and its low bits are `k` too (where the width allows), so that choices made from the low end of
/// a draw are covered like those made from its high end.
pub fn grid(k: usize, m: usize, bits: u32) -> u64 {
    let centre = (((2 * k + 1) as u128) << (bits - 1)) / m as u128;
    let (m, k) = (m as u128, k as u128);
    let pow = (2 * m).next_power_of_two();
    let modulus = m * (pow >> m.trailing_zeros());
    if (1u128 << bits) / m > 4 * modulus {
        return (centre - centre % modulus + k) as u64;
    }
    centre as u64
}

/// Removes the oracle when dropped.
pub struct Oracle;
impl Drop for Oracle {
    fn drop(&mut self) {
        rand::mc_oracle::set(None);
    }
}

/// Let the script answer every draw of every `StdRng` with one of `m` equally spaced values.
/// When the script runs out: unwind if `unwind`, else let the generator answer.
pub fn oracle(script: &Script, m: usize, unwind: bool) -> Oracle {
    let script = script.clone();
    rand::mc_oracle::set(Some(Box::new(move |bits| {
        match script.decide(m) {
            Some(k) => Some(grid(k, m, bits)),
            None if unwind => resume_unwind(Box::new(OutOfChoices)),
            // the generator's own value: a fixed one might be drawn again for ever by a choice
            // that discards some draws
            None => None,
        }
    })));
    Oracle
}

/// Run `f`, turning `OutOfChoices` into `None`.
pub fn within<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<OutOfChoices>() => None,
        Err(p) => resume_unwind(p),
    }
}

pub fn index_of(p: &Production, e: &Expression) -> Option<usize> {
    // alternatives usually lie next to each other
    let first = p.rhs_iter().next()?;
    let off = (std::ptr::from_ref(e) as usize).wrapping_sub(std::ptr::from_ref(first) as usize) / std::mem::size_of::<Expression>();
    if p.rhs_iter().nth(off).is_some_and(|x| std::ptr::eq(x, e)) {
        return Some(off);
    }
    p.rhs_iter().position(|x| std::ptr::eq(x, e))
}

/// What an execution of the generator did.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ev {
    /// asked to choose for this symbol, among these alternatives, at this depth; took this one
    Choose { nt: String, alts: Vec<Vec<Term>>, depth: usize, took: Option<usize> },
    /// the callback saw this value for this symbol and answered
    Call { nt: String, value: String, ok: bool },
}

pub fn alts_of(p: &Production) -> Vec<Vec<Term>> {
    p.rhs_iter().map(|e| e.terms_iter().cloned().collect()).collect()
}

/// A strategy that may choose anything: the script decides.
pub struct Any {
    pub script: Script,
    pub log: Rc<RefCell<Vec<Ev>>>,
    pub keep: bool,
}

impl Any {
    pub fn new(script: &Script, keep: bool) -> Any {
        Any { script: script.clone(), log: Rc::default(), keep }
    }
}

impl GenerationStrategy for Any {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        let took = self.script.decide(production.len());
        if self.keep {
            let nt = match &production.lhs {
                Term::Nonterminal(n) => n.clone(),
                Term::Terminal(t) => format!("terminal {t}"),
            };
            self.log.borrow_mut().push(Ev::Choose { nt, alts: alts_of(production), depth, took });
        }
        production.rhs_iter().nth(took?)
    }
}

/// A real strategy whose draws the script decides: `units(production)` equally likely outcomes
/// per choice.
pub struct Driven<S> {
    pub inner: S,
    pub script: Script,
    pub units: fn(&Production) -> usize,
    pub log: Rc<RefCell<Vec<Ev>>>,
}

impl<S: GenerationStrategy> GenerationStrategy for Driven<S> {
    fn choose<'p>(&mut self, production: &'p Production, depth: usize) -> Option<&'p Expression> {
        let before = self.script.0.borrow().taken.len();
        let e = {
            let _o = oracle(&self.script, (self.units)(production), false);
            self.inner.choose(production, depth)
        };
        if self.script.0.borrow().taken.len() > before + 1 {
            self.script.0.borrow_mut().multi = true;
        }
        self.script.tick();
        if self.script.aborted() {
            return None;
        }
        let took = e.and_then(|e| index_of(production, e));
        let nt = match &production.lhs {
            Term::Nonterminal(n) => n.clone(),
            Term::Terminal(t) => format!("terminal {t}"),
        };
        self.log.borrow_mut().push(Ev::Choose { nt, alts: alts_of(production), depth, took });
        e
    }
}

thread_local! {
    static DRAWS: Cell<u64> = const { Cell::new(0) };
}

/// How many draws `f` makes.
pub fn draws(f: impl FnOnce()) -> u64 {
    DRAWS.with(|d| d.set(0));
    rand::mc_oracle::set(Some(Box::new(|_| {
        DRAWS.with(|d| d.set(d.get() + 1));
        None
    })));
    let _o = Oracle;
    f();
    DRAWS.with(|d| d.get())
}
