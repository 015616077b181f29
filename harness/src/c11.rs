//! Partitions of a buffer.
//!
//! `summary_contained_by` stands for the question which message contains a range (decided in C12): the answer is a
//! function of the range, a container starts before the range.
use crate::probe::*;
use crate::v;
use matchit::{partition_from, ContainedBySearch};

/// End of the last partition.
const POS: usize = 0;
/// Length of the buffer.
const LEN: usize = 1;
/// Number of partitions.
const CNT: usize = 2;

/// Is there a container of [a, b)?
fn contained(a: usize, b: usize) -> bool {
    v::rel(1, a, b)
}
/// Does the container of some position start at `x`?
fn container_start(x: usize) -> bool {
    v::rel(2, x, 0)
}

pub fn summary_contained_by(_s: &ContainedBySearch<Probe<'static>>, bytes: &'static [u8], range: (usize, usize)) -> Option<(usize, Probe<'static>)> {
    let (a, b) = range;
    if a >= b || b > bytes.len() {
        return None;
    }
    if contained(a, b) {
        let c = v::any_usize();
        v::assume(c < a && starts_with_marker(&bytes[c..]));
        match read(&bytes[c..]) {
            Some((n, t)) => {
                v::assume(c + n >= b);
                v::assume(container_start(c));
                Some((c, t))
            }
            None => {
                v::assume(false);
                None
            }
        }
    } else {
        None
    }
}

/// Every partition that is stored.
pub fn hook_vec_push(part: &'static [u8]) {
    let p = v::start_of(part);
    v::verify("partitions are contiguous", p == v::gget(POS));
    v::verify("no partition is empty", part.len() > 0);
    v::verify("partitions do not exceed the buffer", p + part.len() <= v::gget(LEN));
    let q = p + part.len();
    v::verify("the next partition starts at a message or outside of messages", q == v::gget(LEN) || container_start(q) || !contained(q, q + 1));
    v::gset(POS, q);
    v::gset(CNT, v::gget(CNT) + 1);
}

fn run(bytes: &'static [u8], num: usize) {
    v::gset(POS, 0);
    v::gset(LEN, bytes.len());
    v::gset(CNT, 0);
    let parts = partition_from::<Probe>(bytes, num);
    v::verify("nothing is lost", v::gget(POS) == bytes.len());
    v::verify("all partitions are returned", parts.len() == v::gget(CNT));
    let i = v::focus_index();
    if i < parts.len() {
        v::reach("a partition");
    }
}

pub fn c11_partition() {
    let bytes = v::any_bytes();
    run(bytes, v::any_usize());
}

pub fn c11_edge() {
    let bytes = v::any_bytes();
    v::assume(bytes.len() < 8);
    run(bytes, v::any_usize());
}
