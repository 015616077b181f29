//! Header flags and message info survive encoding and decoding.
use crate::v;
use rapiddlt::dlt_v1::*;
use zerocopy::{AsBytes, FromBytes};
use DltControlMessageTypeInfo::*;
use DltLogMessageTypeInfo::*;
use DltMessageType::*;
use DltNetworkMessageTypeInfo::*;
use DltTraceMessageTypeInfo::*;

/// The DLT v1 tables.
fn expected(mstp: u8, mtin: u8) -> Option<DltMessageType> {
    match (mstp, mtin) {
        (0, 1) => Some(DltTypeLog(DltLogFatal)),
        (0, 2) => Some(DltTypeLog(DltLogDltError)),
        (0, 3) => Some(DltTypeLog(DltLogWarn)),
        (0, 4) => Some(DltTypeLog(DltLogInfo)),
        (0, 5) => Some(DltTypeLog(DltLogDebug)),
        (0, 6) => Some(DltTypeLog(DltLogVerbose)),
        (1, 1) => Some(DltTypeAppTrace(DltTraceVariable)),
        (1, 2) => Some(DltTypeAppTrace(DltTraceFunctionIn)),
        (1, 3) => Some(DltTypeAppTrace(DltTraceFunctionOut)),
        (1, 4) => Some(DltTypeAppTrace(DltTraceState)),
        (1, 5) => Some(DltTypeAppTrace(DltTraceVfb)),
        (2, 1) => Some(DltTypeNwTrace(DltNwTraceIpc)),
        (2, 2) => Some(DltTypeNwTrace(DltNwTraceCan)),
        (2, 3) => Some(DltTypeNwTrace(DltNwTraceFlexray)),
        (2, 4) => Some(DltTypeNwTrace(DltNwTraceMost)),
        (2, 5) => Some(DltTypeNwTrace(DltNwTraceEthernet)),
        (2, 6) => Some(DltTypeNwTrace(DltNwTraceSomeip)),
        (3, 1) => Some(DltTypeControl(DltControlRequest)),
        (3, 2) => Some(DltTypeControl(DltControlResponse)),
        _ => None,
    }
}
fn code(t: DltMessageType) -> (u8, u8) {
    match t {
        DltTypeLog(DltLogFatal) => (0, 1),
        DltTypeLog(DltLogDltError) => (0, 2),
        DltTypeLog(DltLogWarn) => (0, 3),
        DltTypeLog(DltLogInfo) => (0, 4),
        DltTypeLog(DltLogDebug) => (0, 5),
        DltTypeLog(DltLogVerbose) => (0, 6),
        DltTypeAppTrace(DltTraceVariable) => (1, 1),
        DltTypeAppTrace(DltTraceFunctionIn) => (1, 2),
        DltTypeAppTrace(DltTraceFunctionOut) => (1, 3),
        DltTypeAppTrace(DltTraceState) => (1, 4),
        DltTypeAppTrace(DltTraceVfb) => (1, 5),
        DltTypeNwTrace(DltNwTraceIpc) => (2, 1),
        DltTypeNwTrace(DltNwTraceCan) => (2, 2),
        DltTypeNwTrace(DltNwTraceFlexray) => (2, 3),
        DltTypeNwTrace(DltNwTraceMost) => (2, 4),
        DltTypeNwTrace(DltNwTraceEthernet) => (2, 5),
        DltTypeNwTrace(DltNwTraceSomeip) => (2, 6),
        DltTypeControl(DltControlRequest) => (3, 1),
        DltTypeControl(DltControlResponse) => (3, 2),
    }
}

/// Every byte decodes as the tables say.
pub fn c04_decode() {
    let b = [v::any_u8()];
    if let Some(m) = MessageType::ref_from(&b[..]) {
        let mstp = b[0] / 2 % 8;
        let mtin = b[0] / 16;
        v::reach("decoded");
        v::verify("verbose bit", m.is_verbose() == (b[0] % 2 == 1));
        v::verify("message type and info", m.message_type() == expected(mstp, mtin));
        let (vb, t) = m.info();
        v::verify("info() agrees", vb == m.is_verbose() && t == m.message_type());
    } else {
        v::unreachable("one byte is a message info");
    }
}

/// Encoding puts every value where the tables say, and decoding gives it back.
pub fn c04_encode(t: DltMessageType) {
    let verbose = v::any_bool();
    let m = MessageType::create_message_type(verbose, t);
    let b = m.as_bytes()[0];
    let (mstp, mtin) = code(t);
    v::reach("encoded");
    v::verify("encoded byte", b == verbose as u8 + 2 * mstp + 16 * mtin);
    v::verify("decodes to the same verbosity", m.is_verbose() == verbose);
    v::verify("decodes to the same type and info", m.message_type() == Some(t));
}

/// Header type flags.
pub fn c04_htyp() {
    let (ext, msb, ecu, ses, tms, ver) = (v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_bool(), v::any_u8());
    v::assume(ver < 8);
    let h = DltHTyp::new(ext, msb, ecu, ses, tms, ver);
    v::reach("flags");
    v::verify("flags survive", h.is_extended_header() == ext && h.is_msb_first() == msb && h.is_with_ecu_id() == ecu && h.is_with_session_id() == ses && h.is_with_timestamp() == tms);
    v::verify("version survives", h.version() == ver);
    let b = h.as_bytes()[0];
    v::verify("encoded flags", b == ext as u8 + 2 * (msb as u8) + 4 * (ecu as u8) + 8 * (ses as u8) + 16 * (tms as u8) + 32 * ver);
}

/// Every header byte.
pub fn c04_htyp_decode() {
    let b = [v::any_u8()];
    if let Some(h) = DltHTyp::ref_from(&b[..]) {
        let x = b[0];
        v::reach("header byte");
        v::verify("decoded flags", h.is_extended_header() == (x % 2 == 1) && h.is_msb_first() == (x / 2 % 2 == 1) && h.is_with_ecu_id() == (x / 4 % 2 == 1));
        v::verify("decoded flags 2", h.is_with_session_id() == (x / 8 % 2 == 1) && h.is_with_timestamp() == (x / 16 % 2 == 1));
        v::verify("decoded version", h.version() == x / 32);
    } else {
        v::unreachable("one byte is a header type");
    }
}
