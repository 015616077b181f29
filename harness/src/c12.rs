//! Which message contains a range of bytes.
//!
//! A container is a complete message that starts before the range, covers its last byte, and whose marker is
//! not itself part of a container. The definition is recursive: `recursive_contained_by` stands for the call of
//! `contained_by` about the marker of a candidate; what is known about it is that it is a function of the range (`v::rel`),
//! and that the definition holds for it. That the recursion is well-founded is shown.
use crate::probe::*;
use crate::v;
use matchit::{ContainedBySearch, FromBytesReadableTrait};

/// Start of the range that is asked for.
const AT: usize = 0;

/// Is the marker of the message at `x` part of a container?
fn nested(x: usize) -> bool {
    v::rel(1, x, x + 4)
}

/// Is there a container of [a, b) at `x`?
fn container(bytes: &'static [u8], x: usize, a: usize, b: usize) -> bool {
    if x < a && x <= bytes.len() && starts_with_marker(&bytes[x..]) {
        if let Some((n, _)) = read(&bytes[x..]) {
            return x + n >= b && !nested(x);
        }
    }
    false
}

pub fn recursive_contained_by(_s: &ContainedBySearch<Probe<'static>>, bytes: &'static [u8], range: (usize, usize)) -> Option<(usize, Probe<'static>)> {
    v::verify("the recursion goes backwards", range.0 < v::gget(AT));
    v::verify("the recursion asks about a marker", range.1 == range.0 + 4 && range.1 <= bytes.len());
    if v::rel(1, range.0, range.1) {
        let c = v::any_usize();
        v::assume(c < range.0);
        match Probe::try_read(&bytes[c..]) {
            Some((_, t)) => {
                v::assume(c + t.n >= range.1);
                Some((c, t))
            }
            None => {
                v::assume(false);
                None
            }
        }
    } else {
        None
    }
}

pub fn c12_contained() {
    let bytes = v::any_bytes();
    let (a, b) = (v::any_usize(), v::any_usize());
    v::gset(AT, a);
    let s = ContainedBySearch::<Probe>::new();
    match s.contained_by(bytes, (a, b)) {
        Some((c, t)) => {
            v::reach("container");
            v::verify("the range is one", a < b && b <= bytes.len());
            v::verify("starts before the range", c < a);
            v::verify("marker there", starts_with_marker(&bytes[c..]));
            v::verify("complete message there", v::valid(&bytes[c..]) && v::same_bytes(t.bytes, &bytes[c..]) && t.n == v::length(&bytes[c..]));
            v::verify("covers the range", c + t.n >= b);
            v::verify("not part of a container itself", !nested(c));
        }
        None => v::reach("no container"),
    }
}

/// An arbitrary position that holds a container: no earlier position is passed over, and None is not the answer.
pub fn c12_complete() {
    let bytes = v::any_bytes();
    let (a, b) = (v::any_usize(), v::any_usize());
    let x = v::any_usize();
    v::assume(a < b && b <= bytes.len());
    v::assume(container(bytes, x, a, b));
    v::gset(AT, a);
    let s = ContainedBySearch::<Probe>::new();
    match s.contained_by(bytes, (a, b)) {
        Some((c, _)) => {
            v::reach("container");
            v::verify("the first container", c <= x);
        }
        None => v::unreachable("a container is not found"),
    }
}
