//! Decoding and the accessors never panic, whatever the bytes.
use crate::v;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;

fn touch(e: &DltEntry) {
    let h = &e.header.header_type;
    let _ = (h.is_extended_header(), h.is_msb_first(), h.is_with_ecu_id(), h.is_with_session_id(), h.is_with_timestamp(), h.version());
    let _ = e.header.length();
    let _ = FromBytesReadableTrait::len(e);
    let _ = e.ecu_id();
    let _ = e.timestamp();
    if let Some(x) = e.extended_header() {
        let _ = x.msin.is_verbose();
        let _ = x.msin.message_type();
        let _ = x.msin.info();
        v::reach("extended header");
    }
    if e.payload().is_some() {
        v::reach("payload");
    }
}

pub fn c01_storage_entry() {
    let b = v::any_bytes();
    if let Some((_, e)) = DltStorageEntry::try_read(b) {
        v::reach("decoded");
        let _ = FromBytesReadableTrait::len(&e);
        let _ = e.storage_header.secs.get();
        touch(&e.dlt);
    }
}

/// Entry point used by the scanners, which only checked the marker.
pub fn c01_valid_marker() {
    let b = v::any_bytes();
    v::assume(b.len() >= 4 && b[0..4] == [b'D', b'L', b'T', 1]);
    if let Some((_, e)) = DltStorageEntry::try_read_valid_marker(b) {
        v::reach("decoded");
        let _ = FromBytesReadableTrait::len(&e);
        touch(&e.dlt);
    }
}

/// A bare message, without storage header.
pub fn c01_entry() {
    let b = v::any_bytes();
    if let Some((_, e)) = DltEntry::try_read(b) {
        v::reach("decoded");
        touch(&e);
    }
}

/// The parts are public: any header with any tail.
pub fn c01_parts() {
    let t = DltHTyp::new(v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_u8());
    let h = DltStandardHeader::new(t, v::any_u8(), v::any_u16());
    let e = DltEntry { header: &h, tail: v::any_bytes() };
    touch(&e);
}
