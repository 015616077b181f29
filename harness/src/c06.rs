//! Sequential iteration.
use crate::probe::*;
use crate::v;
use matchit::readit::ReadIterator;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::{FromBytesReadableTrait, NoOffsetIterator, TIterator};
use memchr::memmem;
use rapiddlt::dlt_v1::*;

/// The message the iteration has to give next, when everything before `off` has been dealt with.
fn expected(bytes: &[u8], off: usize) -> Option<(usize, usize)> {
    let q = off + memmem::find(&bytes[off..], M)?;
    let (n, _) = read(&bytes[q..])?;
    Some((q, n))
}

fn check(bytes: &'static [u8], off: usize, r: Option<(usize, Probe<'static>)>) -> Option<usize> {
    match (expected(bytes, off), r) {
        (Some((q, n)), Some((o, t))) => {
            v::reach("message");
            v::verify("next message in file order", o == q);
            v::verify("the message at that offset", v::same_bytes(t.bytes, &bytes[q..]) && t.n == n);
            Some(q + n)
        }
        (None, None) => {
            v::reach("end");
            None
        }
        (Some(_), None) => v::unreachable("stopped although the next marker has a complete message"),
        (None, Some(_)) => v::unreachable("message out of nothing"),
    }
}

pub fn c06_fallback() {
    let bytes = v::any_bytes();
    let mut off = v::any_usize();
    v::assume(off <= bytes.len());
    let mut it = ReadFallbackIterator::<Probe>::new(bytes, off);
    loop {
        match check(bytes, off, it.next()) {
            Some(o) => off = o,
            None => break,
        }
    }
    v::verify("stays at the end", it.next().is_none());
}

/// The iterator obtained from the trait's constructor.
pub fn c06_fallback_trait() {
    let bytes = v::any_bytes();
    let mut off = v::any_usize();
    v::assume(off <= bytes.len());
    let mut it = <ReadFallbackIterator<Probe> as TIterator>::new(bytes, off);
    while let Some(o) = check(bytes, off, it.next()) {
        off = o;
    }
}

/// The library's own iterator over a buffer.
pub fn c06_dltit() {
    let bytes = v::any_bytes();
    let mut off = 0;
    let mut it = dltit(bytes);
    loop {
        let want = match memmem::find(&bytes[off..], M) {
            Some(q) => DltStorageEntry::try_read(&bytes[off + q..]).map(|(n, _)| (off + q, n)),
            None => None,
        };
        match (want, it.next()) {
            (Some((q, n)), Some(e)) => {
                v::reach("message");
                v::verify("next message in file order", v::same_bytes(&e.storage_header.pattern, &bytes[q..q + 4]));
                v::verify("length", FromBytesReadableTrait::len(&e) == n);
                off = q + n;
            }
            (None, None) => {
                v::reach("end");
                break;
            }
            _ => v::unreachable("iteration and messages disagree"),
        }
    }
}

/// Dropping the offsets drops nothing else.
pub fn c06_no_offset() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    let mut a = ReadFallbackIterator::<Probe>::new(bytes, off);
    let mut b = NoOffsetIterator::new(ReadFallbackIterator::<Probe>::new(bytes, off));
    loop {
        match (a.next(), b.next()) {
            (Some((_, x)), Some(y)) => {
                v::reach("message");
                v::verify("same message", v::same_bytes(x.bytes, y.bytes) && x.n == y.n);
            }
            (None, None) => break,
            _ => v::unreachable("different lengths"),
        }
    }
}

/// The iterator with offsets.
pub fn c06_dltit_offset() {
    let bytes = v::any_bytes();
    let mut off = 0;
    let mut it = dltit_offset(bytes);
    loop {
        let want = match memmem::find(&bytes[off..], M) {
            Some(q) => DltStorageEntry::try_read(&bytes[off + q..]).map(|(n, _)| (off + q, n)),
            None => None,
        };
        match (want, it.next()) {
            (Some((q, n)), Some((o, e))) => {
                v::reach("message");
                v::verify("next message in file order", o == q);
                v::verify("the message at that offset", v::same_bytes(&e.storage_header.pattern, &bytes[q..q + 4]));
                v::verify("length", FromBytesReadableTrait::len(&e) == n);
                off = q + n;
            }
            (None, None) => {
                v::reach("end");
                break;
            }
            _ => v::unreachable("iteration and messages disagree"),
        }
    }
}
