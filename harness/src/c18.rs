//! Merging: every item is kept until the end, once, on its own or as a part of another one.
use crate::v;
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::Merge;
use std::ops::ControlFlow;

/// Do the two belong together?
fn together(stored: usize, next: usize) -> bool {
    v::rel(3, stored, next)
}
/// What they make. (Any function of two items can be written like this.)
fn merged(stored: usize, next: usize) -> usize {
    let (a, b) = (v::fun(4, stored), v::fun(5, next));
    v::assume(a < 1 << 60 && b < 1 << 60);
    v::fun(6, a + b)
}
fn key(x: usize) -> usize {
    v::fun(7, x)
}

/// What has to be stored at the focus key.
const VALUE: usize = 0;
const STORED: usize = 32;
/// The item pushed, and the stored one it was merged with.
const NEXT: usize = 1;
const PREV: usize = 2;
const MERGED: usize = 33;
const PUSHING: usize = 34;

fn merge(prev: &usize, next: &usize) -> Option<usize> {
    let (prev, next) = (*prev, *next);
    v::verify("items are merged only while one is pushed", v::gget(PUSHING) == 1);
    v::verify("stored items are compared with the item pushed", next == v::gget(NEXT));
    if key(prev) == v::focus_key::<usize>() {
        v::verify("the item pushed is compared with what is stored", v::gget(STORED) == 1 && prev == v::gget(VALUE));
        v::reach("compared");
    }
    if together(prev, next) {
        v::gset(MERGED, 1);
        v::gset(PREV, prev);
        return Some(merged(prev, next));
    }
    None
}

/// Items are stored at their own keys.
pub fn hook_map_insert(k: usize, x: usize) {
    v::verify("aux: items are stored at their own keys", k == key(x));
}
pub fn hook_map_stored(k: usize, x: usize) {
    v::assume(k == key(x));
}

fn put(x: usize) {
    if key(x) == v::focus_key::<usize>() {
        v::gset(STORED, 1);
        v::gset(VALUE, x);
    }
}
fn start() {
    v::gset(STORED, 0);
    v::gset(MERGED, 0);
    v::gset(PUSHING, 0);
    v::gset(VALUE, 0);
    v::gset(PREV, 0);
    v::gset(NEXT, 0);
}
fn push(adapt: impl FnOnce(usize) -> ControlFlow<(), Option<usize>>) {
    let x = v::any_usize();
    v::gset(NEXT, x);
    v::gset(MERGED, 0);
    v::gset(PUSHING, 1);
    let r = adapt(x);
    v::gset(PUSHING, 0);
    v::verify("merging gives out nothing before it is flushed", r == ControlFlow::Continue(None));
    if v::gget(MERGED) == 1 {
        let p = v::gget(PREV);
        if key(p) == v::focus_key::<usize>() {
            v::gset(STORED, 0);
        }
        put(merged(p, x));
        v::reach("merged");
    } else {
        if v::gget(STORED) == 1 {
            v::verify("an item is stored on its own only if it belongs to none", !together(v::gget(VALUE), x));
        }
        put(x);
    }
}
fn flush(mut finalize: impl FnMut() -> ControlFlow<(), Option<usize>>) {
    loop {
        match finalize() {
            ControlFlow::Continue(Some(x)) => {
                if key(x) == v::focus_key::<usize>() {
                    v::verify("what is given out is stored and was not given out before", v::gget(STORED) == 1);
                    v::verify("what is stored is given out unchanged", x == v::gget(VALUE));
                    v::gset(STORED, 0);
                    v::reach("given out");
                }
            }
            ControlFlow::Continue(None) => {}
            ControlFlow::Break(()) => break,
        }
    }
    v::verify("everything stored is given out when flushed", v::gget(STORED) == 0);
    v::verify("nothing is left behind the flush", finalize().is_break());
}

pub fn c18_merge() {
    start();
    let mut s = Merge::new(merge, |x: &usize| key(*x));
    while v::any_bool() {
        push(|x| s.adapt(x));
    }
    flush(|| s.finalize());
}
pub fn c18_generator() {
    start();
    let mut s = Generator::<usize>::merge(merge, |x: &usize| key(*x));
    while v::any_bool() {
        push(|x| s.adapt(x));
    }
    flush(|| s.finalize());
}
pub fn c18_adapter() {
    start();
    let mut s = Generator::<usize>::map(|x: &usize| *x).merge(merge, |x: &usize| key(*x));
    while v::any_bool() {
        push(|x| s.adapt(x));
    }
    flush(|| s.finalize());
}
