//! What must not allocate: the functions below are starting points of a search through the call graph.
use matchit::fromgenerator::FromAdaptFn;
use matchit::generator::adapter::AdapterTrait;
use matchit::generator::generator::Generator;
use matchit::generator::reducer::ReducerTrait;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{ContainedBySearch, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltExtendedHeader, DltStorageEntry};
use rapiddlt::dltbuffer::DltBuffer;

type E = DltStorageEntry<'static>;

pub fn c26_decode(bytes: &'static [u8]) -> Option<(usize, E)> {
    E::try_read(bytes)
}
pub fn c26_accessors(e: &'static E) -> (Option<u32>, Option<u32>, Option<&'static DltExtendedHeader>, Option<&'static [u8]>, usize) {
    (e.dlt.ecu_id(), e.dlt.timestamp(), e.dlt.extended_header(), e.dlt.payload(), e.len())
}
pub fn c26_info(h: &'static DltExtendedHeader) -> bool {
    h.msin.info().0 && h.msin.is_verbose() && h.msin.message_type().is_some()
}
pub fn c26_sequential(it: &mut ReadFallbackIterator<'static, E>) -> Option<(usize, E)> {
    it.next()
}
pub fn c26_without_offsets(it: &mut NoOffsetIterator<ReadFallbackIterator<'static, E>, E>) -> Option<E> {
    it.next()
}
pub fn c26_strict(it: &mut ReadIterator<'static, E>) -> Option<(usize, E)> {
    it.next()
}
pub fn c26_forward(it: &mut SearchIterator<'static, E>) -> Option<(usize, E)> {
    it.next()
}
pub fn c26_backward(it: &mut RevSearchIterator<'static, E>) -> Option<(usize, E)> {
    it.next()
}
pub fn c26_grep(it: &mut GrepIterator<'static, E>) -> Option<(usize, E)> {
    it.next()
}
pub fn c26_capture(it: &mut RegExMatcherIterator<'static, E>) -> Option<(usize, (usize, usize))> {
    it.next()
}
pub fn c26_starts(bytes: &'static [u8]) -> bool {
    dltit(bytes).iter.next().is_some() && dltit_offset(bytes).next().is_some()
}
pub fn c26_as_slice(b: &'static DltBuffer) -> (&'static [u8], usize) {
    (b.as_slice(), b.len())
}
/// Stages that keep at most one item.
pub fn c26_stages(bytes: &'static [u8]) -> usize {
    let mut r = Generator::map(|e: &E| e.len() as u32).filter(|n| *n > 20).groupby(|a: &u32, b: &u32| a <= b).map(|r| r.1 - r.0).count();
    for e in dltit(bytes) {
        r.next(e);
    }
    r.finalize()
}
