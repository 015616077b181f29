//! A stand-in for a message type: any type that fulfils the contract of the traits.
use crate::v;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;

pub const M: &[u8; 4] = b"DLT\x01";

#[derive(Clone, Copy, Debug)]
pub struct Probe<'a> {
    pub bytes: &'a [u8],
    pub n: usize,
}

/// Which messages there are is left open; what is known is what the traits promise.
pub fn read(bytes: &[u8]) -> Option<(usize, Probe)> {
    if v::valid(bytes) {
        let n = v::length(bytes);
        v::assume(n > 4 && n <= bytes.len() && n <= v::fun(7, 0));
        Some((n, Probe { bytes, n }))
    } else {
        None
    }
}

pub fn starts_with_marker(b: &[u8]) -> bool {
    b.len() >= 4 && b[0] == M[0] && b[1] == M[1] && b[2] == M[2] && b[3] == M[3]
}

impl<'a> FromBytesReadableTrait<'a> for Probe<'a> {
    fn try_read(bytes: &'a [u8]) -> Option<(usize, Self)> {
        if starts_with_marker(bytes) {
            read(bytes)
        } else {
            None
        }
    }
    fn len(&self) -> usize {
        self.n
    }
    fn max_len() -> usize {
        v::fun(7, 0)
    }
}

impl<'a> SearchableMarkerTrait<'a> for Probe<'a> {
    fn marker() -> &'static [u8] {
        M
    }
    fn try_read_valid_marker(bytes: &'a [u8]) -> Option<(usize, Self)> {
        read(bytes)
    }
}

/// What a program ends with.
pub trait Outcome {
    fn good(self) -> bool;
}
impl Outcome for () {
    fn good(self) -> bool {
        true
    }
}
impl<T, E> Outcome for Result<T, E> {
    fn good(self) -> bool {
        self.is_ok()
    }
}
