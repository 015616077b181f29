//! Marker search iterators.
use crate::probe::*;
use crate::v;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker};
use matchit::TIterator;

/// Forward: every item is the first complete message at or after the current position.
pub fn c08_forward() {
    let bytes = v::any_bytes();
    let mut off = v::any_usize();
    v::assume(off <= bytes.len());
    let mut it = SearchIterator::<Probe>::new(bytes, off);
    loop {
        match it.next() {
            Some((o, t)) => {
                v::reach("message");
                v::verify("behind the previous one", o >= off && o < bytes.len());
                v::verify("marker there", starts_with_marker(&bytes[o..]));
                v::verify("complete message there", v::valid(&bytes[o..]) && t.n == v::length(&bytes[o..]) && v::same_bytes(t.bytes, &bytes[o..]));
                v::verify("none skipped", v::no_item(bytes, M, off, o));
                off = o + t.n;
            }
            None => {
                v::reach("end");
                v::verify("none left", off + 3 >= bytes.len() || v::no_item(bytes, M, off, bytes.len() - 3));
                break;
            }
        }
    }
    v::verify("stays at the end", it.next().is_none());
}

/// Backward: every item is the last complete message whose marker ends at or before the current position.
pub fn c08_backward() {
    let bytes = v::any_bytes();
    let mut off = v::any_usize();
    v::assume(off <= bytes.len());
    let mut it = RevSearchIterator::<Probe>::new(bytes, off);
    loop {
        match it.next() {
            Some((o, t)) => {
                v::reach("message");
                v::verify("before the previous one", o + 4 <= off);
                v::verify("marker there", starts_with_marker(&bytes[o..]));
                v::verify("complete message there", v::valid(&bytes[o..]) && t.n == v::length(&bytes[o..]) && v::same_bytes(t.bytes, &bytes[o..]));
                v::verify("none skipped", off < 4 || v::no_item(bytes, M, o + 1, off - 3));
                off = o;
            }
            None => {
                v::reach("end");
                v::verify("none left", off < 4 || v::no_item(bytes, M, 0, off - 3));
                break;
            }
        }
    }
    v::verify("stays at the end", it.next().is_none());
}

/// One step of the searches, from any position.
pub fn c08_search() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    let it = SearchIterator::<Probe>::new(bytes, 0);
    match it.search(bytes, off) {
        Some((o, t)) => {
            v::reach("found");
            v::verify("first marker", o >= off && v::no_marker(bytes, M, off, o) && starts_with_marker(&bytes[o..]));
            v::verify("complete message there", v::valid(&bytes[o..]) && v::same_bytes(t.bytes, &bytes[o..]));
        }
        None => {
            v::reach("not found");
            if let Some(q) = search_marker::<Probe>(&bytes[off..]) {
                v::verify("no complete message at the first marker", !v::valid(&bytes[off + q..]));
            }
        }
    }
}
pub fn c08_search_back() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    let it = RevSearchIterator::<Probe>::new(bytes, 0);
    match it.search(bytes, off) {
        Some((o, t)) => {
            v::reach("found");
            v::verify("last marker", o + 4 <= off && v::no_marker(bytes, M, o + 1, off - 3) && starts_with_marker(&bytes[o..]));
            v::verify("complete message there", v::valid(&bytes[o..]) && v::same_bytes(t.bytes, &bytes[o..]));
        }
        None => {
            v::reach("not found");
            if let Some(q) = search_last_marker::<Probe>(&bytes[..off]) {
                v::verify("no complete message at the last marker", !v::valid(&bytes[q..]));
            }
        }
    }
}
/// The helper functions.
pub fn c08_first_and_last() {
    let bytes = v::any_bytes();
    match search_marker::<Probe>(bytes) {
        Some(p) => {
            v::reach("first");
            v::verify("first marker", starts_with_marker(&bytes[p..]) && v::no_marker(bytes, M, 0, p));
        }
        None => v::verify("no marker", bytes.len() < 4 || v::no_marker(bytes, M, 0, bytes.len() - 3)),
    }
    match search_last_marker::<Probe>(bytes) {
        Some(p) => {
            v::reach("last");
            v::verify("last marker", starts_with_marker(&bytes[p..]) && v::no_marker(bytes, M, p + 1, bytes.len() - 3));
        }
        None => v::verify("no marker at all", bytes.len() < 4 || v::no_marker(bytes, M, 0, bytes.len() - 3)),
    }
}
