//! Grouping: maximal runs of related neighbours.
use crate::v;
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::GroupBy;
use std::ops::ControlFlow;

fn related(a: usize, b: usize) -> bool {
    v::rel(3, a, b)
}

/// The run under construction: its first and last item, and whether it has more than one.
#[derive(Clone, Copy)]
enum Run {
    Nothing,
    One(usize),
    More(usize, usize),
}
use Run::*;

/// What the run amounts to once it has ended.
fn whole(r: Run) -> Option<(usize, usize)> {
    match r {
        Nothing => None,
        One(a) => {
            if related(a, a) {
                Some((a, a))
            } else {
                None
            }
        }
        More(a, b) => Some((a, b)),
    }
}
/// The run behind the next item, and the group that ended with it.
fn push(r: Run, x: usize) -> (Run, Option<(usize, usize)>) {
    match r {
        Nothing => (One(x), None),
        One(a) => {
            if related(a, x) {
                (More(a, x), None)
            } else {
                (One(x), whole(r))
            }
        }
        More(a, b) => {
            if related(b, x) {
                (More(a, x), None)
            } else {
                (One(x), whole(r))
            }
        }
    }
}

fn check(got: Option<(usize, usize)>, want: Option<(usize, usize)>) {
    v::verify("a group is given out when its run has ended, and only then", got.is_some() == want.is_some());
    if let (Some(g), Some(w)) = (got, want) {
        v::verify("a group begins with the first item of its run", g.0 == w.0);
        v::verify("a group ends with the last item of its run", g.1 == w.1);
        v::reach("a group");
    }
}

fn stage<S: AdaptFnTrait<Input = usize, Output = (usize, usize)>>(mut s: S) {
    let mut run = Nothing;
    while v::any_bool() {
        let x = v::any_usize();
        let (next, want) = push(run, x);
        run = next;
        match s.adapt(x) {
            ControlFlow::Continue(got) => check(got, want),
            ControlFlow::Break(()) => v::unreachable("grouping never stops a pipeline"),
        }
    }
    let mut last = whole(run);
    let mut flushed = 0;
    loop {
        match s.finalize() {
            ControlFlow::Continue(Some(g)) => {
                v::verify("the last group is given out once", last.is_some());
                check(Some(g), last);
                last = None;
            }
            ControlFlow::Continue(None) => {}
            ControlFlow::Break(()) => break,
        }
        flushed += 1;
        v::verify("flushing ends", flushed < 8);
    }
    v::verify("the last group is given out when flushed", last.is_none());
    v::verify("nothing is left behind the flush", s.finalize().is_break());
    // the stage starts afresh
    let x = v::any_usize();
    v::verify("a flushed stage starts afresh", s.adapt(x) == ControlFlow::Continue(None));
    v::reach("flushed");
}

pub fn c17_groupby() {
    stage(GroupBy::new(|a: &usize, b: &usize| related(*a, *b)));
}

fn pipeline<S: AdapterTrait<Input = usize, Output = (usize, usize)>>(mut s: S) {
    let mut run = Nothing;
    while v::any_bool() {
        let x = v::any_usize();
        let (next, want) = push(run, x);
        run = next;
        match s.adapt(x) {
            ControlFlow::Continue(got) => check(got, want),
            ControlFlow::Break(()) => v::unreachable("grouping never stops a pipeline"),
        }
    }
    let mut last = whole(run);
    let mut flushed = 0;
    loop {
        match s.finalize() {
            ControlFlow::Continue(Some(g)) => {
                v::verify("the last group is given out once", last.is_some());
                check(Some(g), last);
                last = None;
            }
            ControlFlow::Continue(None) => {}
            ControlFlow::Break(()) => break,
        }
        flushed += 1;
        v::verify("flushing ends", flushed < 8);
    }
    v::verify("the last group is given out when flushed", last.is_none());
    v::reach("flushed");
}
pub fn c17_generator() {
    pipeline(Generator::<usize>::groupby(|a: &usize, b: &usize| related(*a, *b)));
}
pub fn c17_adapter() {
    pipeline(Generator::<usize>::map(|a: &usize| *a).groupby(|a: &usize, b: &usize| related(*a, *b)));
}

const RUN: usize = 32;
const FIRST: usize = 0;
const LAST: usize = 1;
const ENDED: usize = 33;
/// A group that ended but has not come out yet.
const WAITING: usize = 34;
const WFIRST: usize = 2;
const WLAST: usize = 3;
const BUDGET: usize = 4;

/// An arbitrary iterator that keeps track of the run under construction.
struct Items;
fn run() -> Run {
    match v::gget(RUN) {
        0 => Nothing,
        1 => One(v::gget(FIRST)),
        _ => More(v::gget(FIRST), v::gget(LAST)),
    }
}
fn ended(g: Option<(usize, usize)>) {
    if let Some((a, b)) = g {
        v::verify("a group is given out before the next one ends", v::gget(WAITING) == 0);
        v::gset(WAITING, 1);
        v::gset(WFIRST, a);
        v::gset(WLAST, b);
    }
}
impl Iterator for Items {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        v::verify("a group is given out before the next item is taken", v::gget(WAITING) == 0);
        let left = v::gget(BUDGET);
        if v::gget(ENDED) == 0 && left > 0 {
            v::gset(BUDGET, left - 1);
            let x = v::any_usize();
            let (next, want) = push(run(), x);
            match next {
                Nothing => v::gset(RUN, 0),
                One(a) => {
                    v::gset(RUN, 1);
                    v::gset(FIRST, a);
                }
                More(a, b) => {
                    v::gset(RUN, 2);
                    v::gset(FIRST, a);
                    v::gset(LAST, b);
                }
            }
            ended(want);
            return Some(x);
        }
        if v::gget(ENDED) == 0 {
            v::gset(ENDED, 1);
            ended(whole(run()));
            v::gset(RUN, 0);
        }
        None
    }
}
pub fn c17_iterator() {
    v::gset(RUN, 0);
    v::gset(ENDED, 0);
    v::gset(WAITING, 0);
    v::gset(BUDGET, v::any_usize());
    let mut it = Items.groupby(|a: &usize, b: &usize| related(*a, *b));
    while let Some(g) = it.next() {
        v::verify("a group is given out only if a run has ended", v::gget(WAITING) == 1);
        v::verify("a group begins with the first item of its run", g.0 == v::gget(WFIRST));
        v::verify("a group ends with the last item of its run", g.1 == v::gget(WLAST));
        v::gset(WAITING, 0);
        v::reach("a group");
    }
    v::verify("the groups end behind the items", v::gget(ENDED) == 1);
    v::verify("no group is lost", v::gget(WAITING) == 0);
    v::verify("the groups stay at their end", it.next().is_none());
    v::reach("ended");
}
