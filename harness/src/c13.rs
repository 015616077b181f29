//! Every scan comes to its end.
use crate::probe::*;
use crate::v;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltStorageEntry};
use rapiddlt::DltGrepIterator;

fn input() -> (&'static [u8], usize) {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    (bytes, off)
}

fn term_drain<I: Iterator>(it: &mut I) {
    loop {
        if it.next().is_none() {
            break;
        }
        v::reach("an item");
    }
    v::reach("the end");
}
fn term_drain_for_good<I: Iterator>(mut it: I) {
    term_drain(&mut it);
    // asked again, it ends again
    v::verify("stays at the end", it.next().is_none());
}

pub fn c13_sequential() {
    let (b, o) = input();
    term_drain_for_good(ReadFallbackIterator::<Probe>::new(b, o));
}
pub fn c13_without_offsets() {
    let (b, o) = input();
    term_drain_for_good(NoOffsetIterator::new(ReadFallbackIterator::<Probe>::new(b, o)));
}
pub fn c13_strict() {
    let (b, o) = input();
    term_drain_for_good(ReadIterator::<Probe>::new(b, o));
}
pub fn c13_forward() {
    let (b, o) = input();
    term_drain_for_good(SearchIterator::<Probe>::new(b, o));
}
pub fn c13_backward() {
    let (b, o) = input();
    term_drain_for_good(RevSearchIterator::<Probe>::new(b, o));
}
pub fn c13_grep() {
    let (b, o) = input();
    term_drain(&mut GrepIterator::<Probe>::new("p", b, o));
}
pub fn c13_capture() {
    let (b, o) = input();
    term_drain(&mut RegExMatcherIterator::<Probe>::new("p", b, o));
}
pub fn c13_dlt() {
    let (b, _) = input();
    term_drain_for_good(dltit(b));
}
pub fn c13_dlt_offset() {
    let (b, _) = input();
    term_drain_for_good(dltit_offset(b));
}
pub fn c13_dlt_grep() {
    let (b, o) = input();
    term_drain(&mut DltGrepIterator::new("p", b, o));
}

pub fn c13_partition() {
    let num = v::any_usize();
    let parts = partition_from::<Probe>(v::any_bytes(), num);
    v::reach("partitions");
    let _ = parts.len();
}
/// Partitioning asks which message contains a position (that this terminates is decided in C12): any answer that
/// starts before the position is possible.
pub fn summary_contained_by(_s: &ContainedBySearch<Probe<'static>>, bytes: &'static [u8], range: (usize, usize)) -> Option<(usize, Probe<'static>)> {
    let (a, b) = range;
    if a >= b || b > bytes.len() || v::any_bool() {
        return None;
    }
    let c = v::any_usize();
    v::assume(c < a);
    match Probe::try_read(&bytes[c..]) {
        Some((_, t)) => {
            v::assume(c + t.n >= b);
            Some((c, t))
        }
        None => None,
    }
}
