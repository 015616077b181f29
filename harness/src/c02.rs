//! A decoded message is exactly the bytes its header declares.
use crate::v;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;

fn storage(b: &'static [u8], r: Option<(usize, DltStorageEntry<'static>)>, marker_ok: bool) {
    let complete = if b.len() >= 20 {
        let declared = b[18] as usize * 256 + b[19] as usize;
        marker_ok && declared >= 4 && 16 + declared <= b.len()
    } else {
        false
    };
    match r {
        Some((n, e)) => {
            v::reach("decoded");
            v::verify("accepts only complete messages with the marker", complete);
            let declared = b[18] as usize * 256 + b[19] as usize;
            v::verify("consumes the declared size", n == 16 + declared);
            v::verify("len() is the consumed size", FromBytesReadableTrait::len(&e) == n);
            v::verify("inner len() is the declared size", FromBytesReadableTrait::len(&e.dlt) == declared && e.dlt.header.length() == declared);
            v::verify("body is the declared bytes", v::same_bytes(e.dlt.tail, &b[20..16 + declared]));
            v::verify("len() within max_len()", FromBytesReadableTrait::len(&e) <= <DltStorageEntry as FromBytesReadableTrait>::max_len());
            v::verify("inner len() within max_len()", FromBytesReadableTrait::len(&e.dlt) <= <DltEntry as FromBytesReadableTrait>::max_len());
        }
        None => {
            v::reach("rejected");
            v::verify("rejects only incomplete messages", !complete);
        }
    }
}

pub fn c02_storage_entry() {
    let b = v::any_bytes();
    let marker = b.len() >= 4 && b[0] == 0x44 && b[1] == 0x4c && b[2] == 0x54 && b[3] == 1;
    storage(b, DltStorageEntry::try_read(b), marker);
}

pub fn c02_valid_marker() {
    let b = v::any_bytes();
    v::assume(b.len() >= 4 && b[0] == 0x44 && b[1] == 0x4c && b[2] == 0x54 && b[3] == 1);
    storage(b, DltStorageEntry::try_read_valid_marker(b), true);
}

pub fn c02_marker() {
    let m = <DltStorageEntry as SearchableMarkerTrait>::marker();
    v::verify("marker is DLT 0x01", m.len() == 4 && m[0] == 0x44 && m[1] == 0x4c && m[2] == 0x54 && m[3] == 1);
}

pub fn c02_entry() {
    let b = v::any_bytes();
    let complete = if b.len() >= 4 {
        let declared = b[2] as usize * 256 + b[3] as usize;
        declared >= 4 && declared <= b.len()
    } else {
        false
    };
    match DltEntry::try_read(b) {
        Some((n, e)) => {
            v::reach("decoded");
            v::verify("accepts only complete messages", complete);
            let declared = b[2] as usize * 256 + b[3] as usize;
            v::verify("consumes the declared size", n == declared && FromBytesReadableTrait::len(&e) == n);
            v::verify("body is the declared bytes", v::same_bytes(e.tail, &b[4..declared]));
        }
        None => {
            v::reach("rejected");
            v::verify("rejects only incomplete messages", !complete);
        }
    }
}
