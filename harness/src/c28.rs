//! Message types as keys of histograms: equal exactly if kind and value are, in a total order.
use crate::v;
use rapiddlt::dlt_v1::{DltControlMessageTypeInfo, DltLogMessageTypeInfo, DltMessageType, DltNetworkMessageTypeInfo, DltTraceMessageTypeInfo};
use std::cmp::Ordering;

/// A number of its own for each message type.
fn number(t: &DltMessageType) -> usize {
    match t {
        DltMessageType::DltTypeLog(i) => match i {
            DltLogMessageTypeInfo::DltLogFatal => 1,
            DltLogMessageTypeInfo::DltLogDltError => 2,
            DltLogMessageTypeInfo::DltLogWarn => 3,
            DltLogMessageTypeInfo::DltLogInfo => 4,
            DltLogMessageTypeInfo::DltLogDebug => 5,
            DltLogMessageTypeInfo::DltLogVerbose => 6,
        },
        DltMessageType::DltTypeAppTrace(i) => match i {
            DltTraceMessageTypeInfo::DltTraceVariable => 11,
            DltTraceMessageTypeInfo::DltTraceFunctionIn => 12,
            DltTraceMessageTypeInfo::DltTraceFunctionOut => 13,
            DltTraceMessageTypeInfo::DltTraceState => 14,
            DltTraceMessageTypeInfo::DltTraceVfb => 15,
        },
        DltMessageType::DltTypeNwTrace(i) => match i {
            DltNetworkMessageTypeInfo::DltNwTraceIpc => 21,
            DltNetworkMessageTypeInfo::DltNwTraceCan => 22,
            DltNetworkMessageTypeInfo::DltNwTraceFlexray => 23,
            DltNetworkMessageTypeInfo::DltNwTraceMost => 24,
            DltNetworkMessageTypeInfo::DltNwTraceEthernet => 25,
            DltNetworkMessageTypeInfo::DltNwTraceSomeip => 26,
        },
        DltMessageType::DltTypeControl(i) => match i {
            DltControlMessageTypeInfo::DltControlRequest => 31,
            DltControlMessageTypeInfo::DltControlResponse => 32,
        },
    }
}
fn any() -> DltMessageType {
    v::arbitrary::<DltMessageType>()
}
fn flip(o: Ordering) -> Ordering {
    match o {
        Ordering::Less => Ordering::Greater,
        Ordering::Equal => Ordering::Equal,
        Ordering::Greater => Ordering::Less,
    }
}
fn is(a: Ordering, b: Ordering) -> bool {
    match (a, b) {
        (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater) => true,
        _ => false,
    }
}
pub fn c28_equality() {
    let (a, b) = (any(), any());
    let same = number(&a) == number(&b);
    v::reach("compared");
    v::verify("two types are equal exactly if kind and value are", (a == b) == same);
    v::verify("and unequal otherwise", (a != b) == !same);
}
pub fn c28_order() {
    let (a, b) = (any(), any());
    let o = a.cmp(&b);
    let back = b.cmp(&a);
    v::reach("compared");
    v::verify("only equal types are in no order", is(o, Ordering::Equal) == (number(&a) == number(&b)));
    v::verify("the order does not depend on the side", is(back, flip(o)));
    match a.partial_cmp(&b) {
        Some(p) => v::verify("there is one order", is(p, o)),
        None => v::unreachable("every two types are in an order"),
    }
    v::verify("less is less", (a < b) == is(o, Ordering::Less));
    v::verify("greater is greater", (a > b) == is(o, Ordering::Greater));
}
pub fn c28_transitive() {
    // (in parts, one for each type)
    let (a, b, c) = (v::focus_key::<DltMessageType>(), any(), any());
    v::reach("compared");
    if !is(a.cmp(&b), Ordering::Greater) && !is(b.cmp(&c), Ordering::Greater) {
        v::verify("the order is transitive", !is(a.cmp(&c), Ordering::Greater));
    }
}
/// What the histogram of message types uses.
pub fn c28_key() {
    let a: (bool, Option<DltMessageType>) = (v::any_bool(), if v::any_bool() { Some(any()) } else { None });
    let b: (bool, Option<DltMessageType>) = (v::any_bool(), if v::any_bool() { Some(any()) } else { None });
    let n = |x: &(bool, Option<DltMessageType>)| match &x.1 {
        Some(t) => number(t),
        None => 0,
    };
    let same = a.0 == b.0 && n(&a) == n(&b);
    v::reach("compared");
    v::verify("two keys are the same exactly if flag and type are", is(a.cmp(&b), Ordering::Equal) == same);
}
