//! Regular expression search over messages: which captures are reported.
//!
//! The searches of the regular expression engine are monitored: `hook_regex_search` is called before and
//! `hook_regex_match` after every search. The ghost state says from where the next match has to be looked
//! for and which message has to be reported next.
use crate::probe::*;
use crate::v;
use matchit::searchable::grepit::RegExMatcherIterator;
use memchr::memmem;

/// Position from which the next match has to be searched.
const FROM: usize = 0;
/// The message the match found last belongs to, and its length.
const OWNER: usize = 1;
const LEN: usize = 2;
/// The range of the first capture group.
const GSTART: usize = 3;
const GEND: usize = 4;
/// What is known about the next message to report.
const MODE: usize = 32;
/// It has to be searched.
const SEARCH: usize = 0;
/// It was found.
const FOUND: usize = 1;
/// There is none.
const NONE: usize = 2;

/// The message a match belongs to: the one whose marker is the last to end at or before the start of the
/// match, provided that the whole match is inside.
fn owner(bytes: &'static [u8], s: usize, e: usize) -> Option<(usize, usize)> {
    let c = memmem::rfind(&bytes[..s], M)?;
    let (n, _) = read(&bytes[c..])?;
    if s < c + n && e <= c + n {
        Some((c, n))
    } else {
        None
    }
}

pub fn hook_regex_search(_bytes: &'static [u8], start: usize) {
    if v::gget(MODE) == FOUND {
        v::unreachable("a capture inside a message is passed over");
    }
    v::verify("the search goes on where it left off", start == v::gget(FROM));
}

pub fn hook_regex_match(bytes: &'static [u8], found: bool, s: usize, e: usize, group: bool, gs: usize, ge: usize) {
    if !found {
        v::gset(MODE, NONE);
        return;
    }
    if group {
        if let Some((c, n)) = owner(bytes, s, e) {
            v::gset(MODE, FOUND);
            v::gset(OWNER, c);
            v::gset(LEN, n);
            v::gset(GSTART, gs);
            v::gset(GEND, ge);
            return;
        }
    }
    // the match is not part of a message or has no capture: the search goes on behind it
    v::gset(MODE, SEARCH);
    v::gset(FROM, if s == e { e + 1 } else { e });
}

fn start(off: usize) {
    v::gset(FROM, off);
    v::gset(OWNER, 0);
    v::gset(LEN, 0);
    v::gset(GSTART, 0);
    v::gset(GEND, 0);
    v::gset(MODE, SEARCH);
}

fn reported(bytes: &'static [u8], r: &Option<(usize, (usize, usize))>) {
    match r {
        Some((o, (gs, ge))) => {
            v::reach("capture");
            v::verify("a capture was found", v::gget(MODE) == FOUND);
            let c = v::gget(OWNER);
            v::verify("offset of the message the match is in", *o == c);
            v::verify("range of the first capture group", *gs == v::gget(GSTART) && *ge == v::gget(GEND));
            v::verify("the range is inside the message", *gs >= c && *gs <= *ge && *ge <= c + v::gget(LEN));
            v::gset(FROM, c + v::gget(LEN));
            v::gset(MODE, SEARCH);
        }
        None => {
            v::reach("end");
            v::verify("every message with a capture is reported", v::gget(MODE) == NONE || (v::gget(MODE) == SEARCH && v::gget(FROM) >= bytes.len()));
        }
    }
}

pub fn c10_captures() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    start(off);
    let mut it = RegExMatcherIterator::<Probe>::new("p", bytes, off);
    loop {
        let r = it.next();
        reported(bytes, &r);
        if r.is_none() {
            break;
        }
    }
}

/// One search from any position.
pub fn c10_capture() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    start(off);
    let it = RegExMatcherIterator::<Probe>::new("p", bytes, 0);
    let r = it.capture(bytes, off);
    reported(bytes, &r);
}
