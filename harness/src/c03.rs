//! Optional header parts are found where the header flags say they are.
use crate::v;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;
use zerocopy::AsBytes;

fn be32(t: &[u8], o: usize) -> u32 {
    t[o] as u32 * 0x1000000 + t[o + 1] as u32 * 0x10000 + t[o + 2] as u32 * 0x100 + t[o + 3] as u32
}

fn parts(e: &DltEntry, flags: u8) {
    let t = e.tail;
    let (ext, ecu, ses, tms) = (flags % 2 == 1, flags / 4 % 2 == 1, flags / 8 % 2 == 1, flags / 16 % 2 == 1);
    let o_tms = (if ecu { 4 } else { 0 }) + (if ses { 4 } else { 0 });
    let o_ext = o_tms + (if tms { 4 } else { 0 });
    let o_pay = o_ext + (if ext { 10 } else { 0 });

    match e.ecu_id() {
        Some(x) => {
            v::reach("ecu");
            v::verify("ecu id only when flagged and complete", ecu && t.len() >= 4);
            v::verify("ecu id value", x == be32(t, 0));
        }
        None => v::verify("ecu id missing only when absent or cut off", !ecu || t.len() < 4),
    }
    match e.timestamp() {
        Some(x) => {
            v::reach("timestamp");
            v::verify("timestamp only when flagged and complete", tms && t.len() >= o_tms + 4);
            v::verify("timestamp value", x == be32(t, o_tms));
        }
        None => v::verify("timestamp missing only when absent or cut off", !tms || t.len() < o_tms + 4),
    }
    match e.extended_header() {
        Some(x) => {
            v::reach("extended header");
            v::verify("extended header only when flagged and complete", ext && t.len() >= o_ext + 10);
            v::verify("extended header message info", x.msin.as_bytes()[0] == t[o_ext]);
            v::verify("extended header argument count", x.noar == t[o_ext + 1]);
            v::verify("extended header application id", x.apid[0] == t[o_ext + 2] && x.apid[1] == t[o_ext + 3] && x.apid[2] == t[o_ext + 4] && x.apid[3] == t[o_ext + 5]);
            v::verify("extended header context id", x.ctid[0] == t[o_ext + 6] && x.ctid[1] == t[o_ext + 7] && x.ctid[2] == t[o_ext + 8] && x.ctid[3] == t[o_ext + 9]);
        }
        None => v::verify("extended header missing only when absent or cut off", !ext || t.len() < o_ext + 10),
    }
    match e.payload() {
        Some(p) => {
            v::reach("payload");
            v::verify("payload only after complete headers", t.len() >= o_pay);
            v::verify("payload is everything after the headers", v::same_bytes(p, &t[o_pay..]));
        }
        None => v::verify("payload missing only when the headers are cut off", t.len() < o_pay),
    }
}

/// Messages decoded from a file.
pub fn c03_storage_entry() {
    let b = v::any_bytes();
    if let Some((_, e)) = DltStorageEntry::try_read(b) {
        parts(&e.dlt, b[16]);
    }
}
/// Messages put together from public parts.
pub fn c03_parts() {
    let (ext, msb, ecu, ses, tms, ver) = (v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_u8());
    let h = DltStandardHeader::new(DltHTyp::new(ext, msb, ecu, ses, tms, ver), v::any_u8(), v::any_u16());
    let e = DltEntry { header: &h, tail: v::any_bytes() };
    let f = ext as u8 + 4 * (ecu as u8) + 8 * (ses as u8) + 16 * (tms as u8);
    parts(&e, f);
}
