//! Linearizability search: is there an order of the calls that respects real
//! time and in which every call has a possible result?
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

pub struct LOp<C> {
    pub inv: u64,
    /// `u64::MAX`: never returned, may or may not have happened
    pub res: u64,
    pub c: C,
}
pub struct Lin<S> {
    /// possible states afterwards; empty if there is no order
    pub out: Vec<S>,
    pub over: bool,
    pub deepest: usize,
}
/// `step` gives the states possible after the call with its recorded result, none if the result is impossible.
pub fn lin<S: Clone + Eq + Hash, C>(ops: &[LOp<C>], init: &[S], max: usize, step: &dyn Fn(&C, &S) -> Vec<S>) -> Lin<S> {
    let mut x = Ctx { ops, step, memo: HashMap::new(), out: HashSet::new(), nodes: 0, deepest: 0, max };
    let mut order = vec![];
    for s in init { let mut d = vec![0u64; ops.len() / 64 + 1]; if x.go(&mut d, 0, s.clone()) { order.push(()); } }
    let mut out: Vec<S> = Vec::new();
    for s in x.out.drain() { out.push(s); }
    Lin { out, over: x.nodes > max, deepest: x.deepest }
}
struct Ctx<'a, S, C> {
    ops: &'a [LOp<C>],
    step: &'a dyn Fn(&C, &S) -> Vec<S>,
    memo: HashMap<(Vec<u64>, S), bool>,
    out: HashSet<S>,
    nodes: usize,
    deepest: usize,
    max: usize,
}
impl<'a, S: Clone + Eq + Hash, C> Ctx<'a, S, C> {
    fn go(&mut self, done: &mut Vec<u64>, n: usize, s: S) -> bool {
        self.nodes += 1;
        if self.nodes > self.max { return true; }
        let key = (done.clone(), s.clone());
        if let Some(b) = self.memo.get(&key) { return *b; }
        self.deepest = self.deepest.max(n);
        let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut ok = (0..self.ops.len()).all(|i| is(done, i) || self.ops[i].res == u64::MAX);
        if ok { self.out.insert(s.clone()); }
        let bound = (0..self.ops.len()).filter(|i| !is(done, *i)).map(|i| self.ops[i].res).min().unwrap_or(0);
        for i in 0..self.ops.len() {
            if is(done, i) || self.ops[i].inv > bound { continue; }
            for nx in (self.step)(&self.ops[i].c, &s) {
                done[i / 64] |= 1 << (i % 64);
                ok |= self.go(done, n + 1, nx);
                done[i / 64] &= !(1 << (i % 64));
            }
        }
        self.memo.insert(key, ok);
        ok
    }
}
