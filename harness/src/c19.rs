//! Stages pulled by an iterator.
use crate::v;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::*;
use matchit::generator::reducer::*;
use std::ops::ControlFlow;

const LOTS: usize = 1 << 40;
/// Items given out by the iterator, and those that arrived at the stage.
const GIVEN: usize = 0;
const TAKEN: usize = 1;
/// Results of the stage, and those that arrived at the caller.
const MADE: usize = 2;
const GOT: usize = 3;
/// How many items the iterator still gives out, and how often the stage still gives out something while it is flushed.
const LEFT: usize = 4;
const BUDGET: usize = 5;
const ARRIVED: usize = 6;
const EXPECTED: usize = 7;
const EMPTY: usize = 32;
const FLUSHED: usize = 33;

fn bump(cell: usize) -> usize {
    let n = v::gget(cell);
    v::assume(n < LOTS);
    v::gset(cell, n + 1);
    n
}
fn start() {
    v::gset(GIVEN, 0);
    v::gset(TAKEN, 0);
    v::gset(MADE, 0);
    v::gset(GOT, 0);
    v::gset(ARRIVED, 0);
    v::gset(EXPECTED, 0);
    v::gset(EMPTY, 0);
    v::gset(FLUSHED, 0);
    v::gset(LEFT, v::any_usize());
    v::gset(BUDGET, v::any_usize());
}

struct Items;
impl Iterator for Items {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        v::verify("a result is handed on before the next item is taken", v::gget(MADE) == v::gget(GOT));
        v::verify("an item reaches the stage before the next one is taken", v::gget(GIVEN) == v::gget(TAKEN));
        let n = v::gget(LEFT);
        if n == 0 {
            v::gset(EMPTY, 1);
            return None;
        }
        v::gset(LEFT, n - 1);
        Some(bump(GIVEN))
    }
}
struct Stage;
impl AdaptFnTrait for Stage {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, next: usize) -> ControlFlow<(), Option<usize>> {
        v::verify("every item arrives at the stage once and in order", next == bump(TAKEN));
        v::verify("no item arrives behind the flush", v::gget(FLUSHED) == 0);
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(MADE)));
        }
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> {
        v::verify("the stage is flushed behind the last item", v::gget(EMPTY) == 1 && v::gget(GIVEN) == v::gget(TAKEN));
        let n = v::gget(BUDGET);
        if n == 0 {
            v::gset(FLUSHED, 1);
            return ControlFlow::Break(());
        }
        v::gset(BUDGET, n - 1);
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(MADE)));
        }
        ControlFlow::Continue(None)
    }
}

pub fn c19_iterator() {
    start();
    let mut it = FromAdaptFn::new(Stage, Items);
    while let Some(x) = it.next() {
        v::verify("results are handed on once and in order", x == bump(GOT));
        v::verify("no result is lost", v::gget(MADE) == v::gget(GOT));
        v::reach("a result");
    }
    v::verify("the results end when the stage has nothing left", v::gget(FLUSHED) == 1);
    v::verify("every item has reached the stage", v::gget(LEFT) == 0 && v::gget(GIVEN) == v::gget(TAKEN));
    v::verify("every result has been handed on", v::gget(MADE) == v::gget(GOT));
    v::verify("the results stay at their end", it.next().is_none());
    v::reach("ended");
}

fn key(x: usize) -> usize {
    v::fun(5, x)
}
/// Any number of arbitrary items.
struct Numbers;
const MINE: usize = 8;
impl Iterator for Numbers {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        v::verify("an item arrives at its reducer before the next one is taken", v::gget(ARRIVED) == v::gget(GIVEN));
        let n = v::gget(LEFT);
        if n == 0 {
            v::gset(EMPTY, 1);
            return None;
        }
        v::gset(LEFT, n - 1);
        bump(GIVEN);
        let x = v::any_usize();
        v::gset(EXPECTED, x);
        if key(x) == v::focus_key::<usize>() {
            bump(MINE);
        }
        Some(x)
    }
}
struct Keyed {
    key: usize,
    count: usize,
}
impl ReducerTrait for Keyed {
    type Input = usize;
    type Reduced = (usize, usize);
    fn next(&mut self, next: usize) {
        v::verify("an item arrives at the reducer of its key", key(next) == self.key);
        v::verify("the item is the one given last", next == v::gget(EXPECTED));
        bump(ARRIVED);
        v::assume(self.count < LOTS);
        self.count += 1;
    }
    fn finalize(self) -> (usize, usize) {
        v::verify("reducers are finished behind the last item", v::gget(EMPTY) == 1);
        (self.key, self.count)
    }
}
pub fn hook_map_stored(k: usize, r: Keyed) {
    v::assume(r.key == k);
}
pub fn c19_split() {
    start();
    v::gset(MINE, 0);
    let out = Numbers.split(|x: &usize| key(*x), |k: &usize| Keyed { key: *k, count: 0 });
    v::verify("every item is taken", v::gget(LEFT) == 0);
    let k: usize = v::focus_key();
    match out.get(&k) {
        Some(r) => {
            v::verify("the result of a key is that of its reducer", r.0 == k);
            v::verify("the reducer of a key is given every item of that key", r.1 == v::gget(MINE));
            v::verify("there is a result only for keys that occur", v::gget(MINE) > 0);
            v::reach("a key");
        }
        None => v::verify("every key that occurs has a result", v::gget(MINE) == 0),
    }
}
