//! Strict sequential reading.
use crate::probe::*;
use crate::v;
use matchit::readit::ReadIterator;
use matchit::{FromBytesReadableTrait, TIterator};

fn strict(bytes: &'static [u8], mut off: usize, mut it: ReadIterator<'static, Probe<'static>>) {
    loop {
        let want = if off < bytes.len() { Probe::try_read(&bytes[off..]) } else { None };
        match (want, it.next()) {
            (Some((n, _)), Some((o, t))) => {
                v::reach("message");
                v::verify("next message directly after the previous one", o == off);
                v::verify("the message at that offset", v::same_bytes(t.bytes, &bytes[off..]) && t.n == n);
                off += n;
            }
            (None, None) => {
                v::reach("end");
                break;
            }
            (Some(_), None) => v::unreachable("stopped in front of a message"),
            (None, Some(_)) => v::unreachable("message out of nothing"),
        }
    }
    v::verify("stays at the end", it.next().is_none());
}

pub fn c07_read() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    strict(bytes, off, ReadIterator::<Probe>::new(bytes, off));
}
pub fn c07_read_trait() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    strict(bytes, off, <ReadIterator<Probe> as TIterator>::new(bytes, off));
}
