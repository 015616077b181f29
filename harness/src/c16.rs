//! Push pipelines: every stage hands on every item exactly once and in order.
//!
//! The stages under analysis are connected to probes that number what they give out and check what they are given.
use crate::v;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::*;
use std::ops::{Add, ControlFlow};

/// More items than anyone counts.
const LOTS: usize = 1 << 40;
/// Items given to the pipeline.
const IN: usize = 0;
/// Items given out by the probe upstream.
const EMITTED: usize = 1;
/// Items that arrived at the probe downstream.
const TAKEN: usize = 2;
/// Results of the probe downstream.
const MADE: usize = 3;
/// Results that arrived at the caller.
const GOT: usize = 4;
/// How often the probes still give out something while they are flushed.
const BUDGET: usize = 5;
/// What the accumulator has to be.
const ACC: usize = 6;
/// The item that has to arrive next, and how many did.
const EXPECTED: usize = 7;
const ARRIVED: usize = 8;
const OTHER: usize = 9;
const FINISHED: usize = 10;
/// The probes have nothing left.
const UP_DONE: usize = 32;
const DOWN_DONE: usize = 33;
/// One of the probes has stopped the pipeline.
const STOPPED: usize = 34;

fn bump(cell: usize) -> usize {
    let n = v::gget(cell);
    v::assume(n < LOTS);
    v::gset(cell, n + 1);
    n
}
fn start() {
    v::gset(IN, 0);
    v::gset(EMITTED, 0);
    v::gset(TAKEN, 0);
    v::gset(MADE, 0);
    v::gset(GOT, 0);
    v::gset(ARRIVED, 0);
    v::gset(OTHER, 0);
    v::gset(FINISHED, 0);
    v::gset(UP_DONE, 0);
    v::gset(DOWN_DONE, 0);
    v::gset(STOPPED, 0);
    v::gset(BUDGET, v::any_usize());
}
fn spend() -> bool {
    let n = v::gget(BUDGET);
    if n == 0 {
        return false;
    }
    v::gset(BUDGET, n - 1);
    true
}

/// A stage upstream that gives out what it likes.
struct Up;
impl AdapterTrait for Up {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, next: usize) -> ControlFlow<(), Option<usize>> {
        v::verify("every input arrives once and in order", next == bump(IN));
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(EMITTED)));
        }
        if v::any_bool() {
            v::gset(STOPPED, 1);
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> {
        if v::gget(UP_DONE) == 1 || !spend() {
            v::gset(UP_DONE, 1);
            return ControlFlow::Break(());
        }
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(EMITTED)));
        }
        ControlFlow::Continue(None)
    }
}

/// A stage downstream that makes what it likes of what it is given.
struct Down;
impl AdaptFnTrait for Down {
    type Input = usize;
    type Output = usize;
    fn adapt(&mut self, next: usize) -> ControlFlow<(), Option<usize>> {
        v::verify("every item arrives at the next stage once and in order", next == bump(TAKEN));
        v::verify("no item arrives behind the flush", v::gget(DOWN_DONE) == 0);
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(MADE)));
        }
        if v::any_bool() {
            v::gset(STOPPED, 1);
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(None)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<usize>> {
        v::verify("a stage is flushed behind the stages before it", v::gget(UP_DONE) == 1);
        if v::gget(DOWN_DONE) == 1 || !spend() {
            v::gset(DOWN_DONE, 1);
            return ControlFlow::Break(());
        }
        if v::any_bool() {
            return ControlFlow::Continue(Some(bump(MADE)));
        }
        ControlFlow::Continue(None)
    }
}

fn check(r: &ControlFlow<(), Option<usize>>) {
    if let ControlFlow::Continue(Some(x)) = r {
        v::verify("results are handed on once and in order", *x == bump(GOT));
    }
    v::verify("no item is lost between the stages", v::gget(EMITTED) == v::gget(TAKEN));
    v::verify("no result is lost", v::gget(MADE) == v::gget(GOT));
}

pub fn c16_adapter() {
    start();
    let mut a = Adapter::new(Down, Up);
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        let r = a.adapt(n);
        n += 1;
        v::verify("every input reaches the first stage", v::gget(IN) == n);
        check(&r);
        v::verify("only a stage stops the pipeline", r.is_continue() || v::gget(STOPPED) == 1);
        v::gset(STOPPED, 0);
    }
    loop {
        let r = a.finalize();
        check(&r);
        if r.is_break() {
            v::verify("the flush ends when the stages have nothing left", v::gget(STOPPED) == 1 || (v::gget(UP_DONE) == 1 && v::gget(DOWN_DONE) == 1));
            v::reach("flushed");
            break;
        }
        v::gset(STOPPED, 0);
    }
}

/// A reducer that checks what it is given. `CELL` counts.
struct Sink<const CELL: usize>;
impl<const CELL: usize> ReducerTrait for Sink<CELL> {
    type Input = usize;
    type Reduced = usize;
    fn next(&mut self, next: usize) {
        v::verify("every item arrives at the reducer once and in order", next == bump(CELL));
    }
    fn finalize(self) -> usize {
        bump(FINISHED);
        v::gget(CELL)
    }
}

pub fn c16_reducer() {
    start();
    let mut r = Reducer::new(Sink::<TAKEN>, Up);
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        r.next(n);
        n += 1;
        v::verify("every input reaches the first stage", v::gget(IN) == n);
        v::verify("no item is lost before the reducer", v::gget(EMITTED) == v::gget(TAKEN));
        v::gset(STOPPED, 0);
    }
    let out = r.finalize();
    v::verify("no flushed item is lost before the reducer", v::gget(EMITTED) == v::gget(TAKEN));
    v::verify("the reducer is finished once, behind the flush", v::gget(FINISHED) == 1 && v::gget(UP_DONE) == 1);
    v::verify("the result is that of the reducer", out == v::gget(TAKEN));
    v::reach("reduced");
}

/// Is the item kept?
fn keep(x: usize) -> bool {
    v::rel(3, x, 0)
}
fn image(x: usize) -> usize {
    v::fun(4, x)
}

/// The function of a fold, which checks what it is given and gives out numbers.
fn step(acc: usize, x: usize) -> usize {
    v::verify("the accumulator is the previous result", acc == v::gget(ACC));
    v::verify("the item is the next one", x == v::gget(EXPECTED));
    bump(ARRIVED);
    let n = v::any_usize();
    v::gset(ACC, n);
    n
}
fn acc() -> usize {
    let a = v::any_usize();
    v::gset(ACC, a);
    a
}

fn feed<R: ReducerTrait<Input = usize, Reduced = usize>>(mut r: R, expected: impl Fn(usize) -> Option<usize>) {
    let mut count = 0;
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        let x = v::any_usize();
        n += 1;
        let e = expected(x);
        if let Some(y) = e {
            v::gset(EXPECTED, y);
            count += 1;
        }
        r.next(x);
        v::verify("every item takes effect once, or is left out", v::gget(ARRIVED) == count);
    }
    let out = r.finalize();
    v::verify("flushing makes up no item", v::gget(ARRIVED) == count);
    v::verify("the result is the last accumulator", out == v::gget(ACC));
    v::reach("folded");
}

pub fn c16_fold() {
    start();
    feed(Generator::<usize>::fold(acc(), step), Some);
}
pub fn c16_nil() {
    let mut a = NilAdapter::<usize>::default();
    let x = v::any_usize();
    v::verify("the empty adapter hands on its input", a.adapt(x) == ControlFlow::Continue(Some(x)));
    v::verify("the empty adapter holds nothing", a.finalize().is_break());
}
pub fn c16_filter() {
    start();
    feed(Generator::<usize>::filter(|x: &usize| keep(*x)).fold(acc(), step), |x| if keep(x) { Some(x) } else { None });
}
pub fn c16_map() {
    start();
    feed(Generator::<usize>::map(|x: &usize| image(*x)).fold(acc(), step), |x| Some(image(x)));
}
pub fn c16_map_filter() {
    start();
    feed(Generator::<usize>::map(|x: &usize| image(*x)).filter(|x: &usize| keep(*x)).fold(acc(), step), |x| if keep(image(x)) { Some(image(x)) } else { None });
}
pub fn c16_filter_map() {
    start();
    feed(Generator::<usize>::filter(|x: &usize| keep(*x)).map(|x: &usize| image(*x)).fold(acc(), step), |x| if keep(x) { Some(image(x)) } else { None });
}

pub fn c16_count() {
    let mut r = Generator::<usize>::count();
    let mut s = Generator::<usize>::filter(|x: &usize| keep(*x)).count();
    let mut n = 0;
    let mut kept = 0;
    while v::any_bool() && n < LOTS {
        let x = v::any_usize();
        r.next(x);
        s.next(x);
        n += 1;
        if keep(x) {
            kept += 1;
        }
    }
    v::verify("count is the number of items", r.finalize() == n);
    v::verify("count behind a filter is the number of items kept", s.finalize() == kept);
}

/// A number whose sums are watched.
#[derive(Clone, Copy, Debug)]
struct W(usize);
impl Add<usize> for W {
    type Output = usize;
    fn add(self, acc: usize) -> usize {
        step(acc, self.0)
    }
}
fn feed_w<R: ReducerTrait<Input = W, Reduced = usize>>(mut r: R) {
    v::gset(ACC, 0);
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        let x = v::any_usize();
        n += 1;
        v::gset(EXPECTED, x);
        r.next(W(x));
        v::verify("every item is added once", v::gget(ARRIVED) == n);
    }
    let out = r.finalize();
    v::verify("the sum is the last one", out == v::gget(ACC));
    v::verify("every item was added once", v::gget(ARRIVED) == n);
}
pub fn c16_sum() {
    start();
    feed_w(Generator::<W>::sum());
}
pub fn c16_sum_adapter() {
    start();
    feed_w(Generator::<W>::filter(|_: &W| true).sum());
}

pub fn hook_vec_push(x: usize) {
    v::verify("items are collected once and in order", x == v::gget(EXPECTED));
    bump(ARRIVED);
}
pub fn c16_collect() {
    start();
    let mut r = Generator::<usize>::map(|x: &usize| image(*x)).collect();
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        let x = v::any_usize();
        v::gset(EXPECTED, image(x));
        n += 1;
        r.next(x);
        v::verify("every item is collected", v::gget(ARRIVED) == n);
    }
    let out: Vec<usize> = r.finalize();
    v::verify("the collection holds every item", out.len() == n && v::gget(ARRIVED) == n);
}

fn feed_fork<R: ReducerTrait<Input = usize, Reduced = (usize, usize)>>(mut r: R) {
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        r.next(n);
        n += 1;
        v::verify("both branches are given every item", v::gget(TAKEN) == n && v::gget(OTHER) == n);
    }
    let (a, b) = r.finalize();
    v::verify("both branches are finished once", v::gget(FINISHED) == 2);
    v::verify("no item is made up", v::gget(TAKEN) == n && v::gget(OTHER) == n);
    v::verify("the results are those of the branches", a == n && b == n + 1);
}
/// Like `Sink`, but its result differs.
struct Sink2;
impl ReducerTrait for Sink2 {
    type Input = usize;
    type Reduced = usize;
    fn next(&mut self, next: usize) {
        v::verify("every item arrives at the second branch once and in order", next == bump(OTHER));
    }
    fn finalize(self) -> usize {
        bump(FINISHED);
        v::gget(OTHER) + 1
    }
}
pub fn c16_fork() {
    start();
    feed_fork(Generator::<usize>::fork(Sink::<TAKEN>, Sink2));
}
pub fn c16_fork_adapter() {
    start();
    feed_fork(Generator::<usize>::filter(|_: &usize| true).fork(Sink::<TAKEN>, Sink2));
}

/// The key of an item.
fn key(x: usize) -> usize {
    v::fun(5, x)
}
/// The reducer of one key.
struct Keyed {
    key: usize,
    count: usize,
}
impl ReducerTrait for Keyed {
    type Input = usize;
    type Reduced = (usize, usize);
    fn next(&mut self, next: usize) {
        v::verify("an item arrives at the reducer of its key", key(next) == self.key);
        v::verify("the item is the one given last", next == v::gget(EXPECTED));
        bump(ARRIVED);
        v::assume(self.count < LOTS);
        self.count += 1;
    }
    fn finalize(self) -> (usize, usize) {
        bump(FINISHED);
        (self.key, self.count)
    }
}
/// The reducer stored for a key belongs to it.
pub fn hook_map_stored(k: usize, r: Keyed) {
    v::assume(r.key == k);
}
fn feed_split<R: ReducerTrait<Input = usize, Reduced = std::collections::BTreeMap<usize, (usize, usize)>>>(mut r: R) {
    let k: usize = v::focus_key();
    let mut mine = 0;
    let mut n = 0;
    while v::any_bool() && n < LOTS {
        let x = v::any_usize();
        v::gset(EXPECTED, x);
        r.next(x);
        n += 1;
        v::verify("every item arrives at one reducer", v::gget(ARRIVED) == n);
        if key(x) == k {
            mine += 1;
        }
    }
    let out = r.finalize();
    match out.get(&k) {
        Some(r) => {
            v::verify("the result of a key is that of its reducer", r.0 == k);
            v::verify("the reducer of a key is given every item of that key", r.1 == mine);
            v::verify("there is a result only for keys that occur", mine > 0);
            v::reach("a key");
        }
        None => v::verify("every key that occurs has a result", mine == 0),
    }
}
pub fn c16_split() {
    start();
    feed_split(Generator::<usize>::split(|x: &usize| key(*x), |k: &usize| Keyed { key: *k, count: 0 }));
}
pub fn c16_split_adapter() {
    start();
    feed_split(Generator::<usize>::filter(|_: &usize| true).split(|x: &usize| key(*x), |k: &usize| Keyed { key: *k, count: 0 }));
}
