//! On-disk layout and byte order.
use crate::v;
use rapiddlt::dlt_v1::*;
use std::mem::size_of;
use zerocopy::{AsBytes, FromBytes};

pub fn c05_sizes() {
    v::verify("storage header is 16 bytes", size_of::<DltStorageHeader>() == 16);
    v::verify("standard header is 4 bytes", size_of::<DltStandardHeader>() == 4);
    v::verify("extended header is 10 bytes", size_of::<DltExtendedHeader>() == 10);
}

pub fn c05_storage_decode() {
    let b = v::any_bytes();
    match DltStorageHeader::ref_from_prefix(b) {
        Some(h) => {
            v::reach("storage header");
            v::verify("storage pattern", h.pattern[0] == b[0] && h.pattern[1] == b[1] && h.pattern[2] == b[2] && h.pattern[3] == b[3]);
            v::verify("seconds little endian", h.secs.get() == b[4] as u32 + b[5] as u32 * 0x100 + b[6] as u32 * 0x10000 + b[7] as u32 * 0x1000000);
            let m = b[8] as i64 + b[9] as i64 * 0x100 + b[10] as i64 * 0x10000 + b[11] as i64 * 0x1000000;
            let m = if m >= 0x8000_0000 { m - 0x1_0000_0000 } else { m };
            v::verify("microseconds little endian", h.msecs.get() as i64 == m);
            v::verify("storage ecu", h.ecu[0] == b[12] && h.ecu[1] == b[13] && h.ecu[2] == b[14] && h.ecu[3] == b[15]);
        }
        None => v::verify("16 bytes are enough for a storage header", b.len() < 16),
    }
}

pub fn c05_storage_encode() {
    let pattern = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let ecu = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let s = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let m = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let secs = s[0] as u32 + s[1] as u32 * 0x100 + s[2] as u32 * 0x10000 + s[3] as u32 * 0x1000000;
    let mu = m[0] as u32 + m[1] as u32 * 0x100 + m[2] as u32 * 0x10000 + m[3] as u32 * 0x1000000;
    let h = DltStorageHeader::new(pattern, secs, mu as i32, ecu);
    let b = h.as_bytes();
    v::reach("encoded storage header");
    v::verify("storage header bytes", b.len() == 16);
    v::verify("encoded pattern", b[0] == pattern[0] && b[1] == pattern[1] && b[2] == pattern[2] && b[3] == pattern[3]);
    v::verify("encoded seconds", b[4] == s[0] && b[5] == s[1] && b[6] == s[2] && b[7] == s[3]);
    v::verify("encoded microseconds", b[8] == m[0] && b[9] == m[1] && b[10] == m[2] && b[11] == m[3]);
    v::verify("encoded ecu", b[12] == ecu[0] && b[13] == ecu[1] && b[14] == ecu[2] && b[15] == ecu[3]);
    v::verify("seconds read back", h.secs.get() == secs);
    v::verify("microseconds read back", h.msecs.get() == mu as i32);
}

pub fn c05_standard() {
    let (ext, msb, ecu, ses, tms, ver) = (v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_u8());
    v::assume(ver < 8);
    let cnt = v::any_u8();
    let len = v::any_u16();
    let h = DltStandardHeader::new(DltHTyp::new(ext, msb, ecu, ses, tms, ver), cnt, len);
    let b = h.as_bytes();
    v::reach("encoded standard header");
    v::verify("standard header bytes", b.len() == 4);
    v::verify("message counter byte", b[1] == cnt);
    v::verify("length big endian", b[2] as u16 * 256 + b[3] as u16 == len);
    v::verify("length read back", h.length() == len as usize);
}

pub fn c05_standard_decode() {
    let b = v::any_bytes();
    match DltStandardHeader::ref_from_prefix(b) {
        Some(h) => {
            v::reach("standard header");
            v::verify("declared length big endian", h.length() == b[2] as usize * 256 + b[3] as usize);
            v::verify("version bits", h.header_type.version() == b[0] / 32);
        }
        None => v::verify("4 bytes are enough for a standard header", b.len() < 4),
    }
}

pub fn c05_extended(t: DltMessageType) {
    let m = MessageType::create_message_type(v::any_bool(), t);
    let noar = v::any_u8();
    let apid = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let ctid = [v::any_u8(), v::any_u8(), v::any_u8(), v::any_u8()];
    let h = DltExtendedHeader::new(m, noar, apid, ctid);
    let b = h.as_bytes();
    v::reach("encoded extended header");
    v::verify("extended header bytes", b.len() == 10);
    v::verify("encoded message info", b[0] == m.as_bytes()[0]);
    v::verify("encoded argument count", b[1] == noar);
    v::verify("encoded application id", b[2] == apid[0] && b[3] == apid[1] && b[4] == apid[2] && b[5] == apid[3]);
    v::verify("encoded context id", b[6] == ctid[0] && b[7] == ctid[1] && b[8] == ctid[2] && b[9] == ctid[3]);
}
