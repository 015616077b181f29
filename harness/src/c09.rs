//! Regular expression search over messages: which messages are reported.
//!
//! The searches of the regular expression engine are monitored: `hook_regex_search` is called before and
//! `hook_regex_match` after every search. The ghost state says from where the next match has to be looked
//! for and which message has to be reported next.
use crate::probe::*;
use crate::v;
use matchit::searchable::grepit::GrepIterator;
use memchr::memmem;

/// Position from which the next match has to be searched.
const FROM: usize = 0;
/// The message the match found last belongs to, and its length.
const OWNER: usize = 1;
const LEN: usize = 2;
/// What is known about the next message to report.
const MODE: usize = 32;
/// It has to be searched.
const SEARCH: usize = 0;
/// It was found.
const FOUND: usize = 1;
/// There is none.
const NONE: usize = 2;

/// The message a match belongs to: the one whose marker is the last to end at or before the start of the
/// match, provided that the whole match is inside.
fn owner(bytes: &'static [u8], s: usize, e: usize) -> Option<(usize, usize)> {
    let c = memmem::rfind(&bytes[..s], M)?;
    let (n, _) = read(&bytes[c..])?;
    if s < c + n && e <= c + n {
        Some((c, n))
    } else {
        None
    }
}

pub fn hook_regex_search(_bytes: &'static [u8], start: usize) {
    if v::gget(MODE) == FOUND {
        v::unreachable("a match inside a message is passed over");
    }
    v::verify("the search goes on where it left off", start == v::gget(FROM));
}

pub fn hook_regex_match(bytes: &'static [u8], found: bool, s: usize, e: usize, _group: bool, _gs: usize, _ge: usize) {
    if !found {
        v::gset(MODE, NONE);
    } else if let Some((c, n)) = owner(bytes, s, e) {
        v::gset(MODE, FOUND);
        v::gset(OWNER, c);
        v::gset(LEN, n);
    } else {
        // the match is not part of a message: the search goes on behind it
        v::gset(MODE, SEARCH);
        v::gset(FROM, if s == e { e + 1 } else { e });
    }
}

fn start(off: usize) {
    v::gset(FROM, off);
    v::gset(OWNER, 0);
    v::gset(LEN, 0);
    v::gset(MODE, SEARCH);
}

fn reported(bytes: &'static [u8], r: &Option<(usize, Probe<'static>)>) {
    match r {
        Some((o, t)) => {
            v::reach("message");
            v::verify("a match was found", v::gget(MODE) == FOUND);
            let c = v::gget(OWNER);
            v::verify("the message the match is in", *o == c);
            v::verify("the message at that offset", v::same_bytes(t.bytes, &bytes[*o..]) && t.n == v::gget(LEN));
            // the rest of the message is skipped: it is not reported twice
            v::gset(FROM, c + v::gget(LEN));
            v::gset(MODE, SEARCH);
        }
        None => {
            v::reach("end");
            v::verify("every message with a match is reported", v::gget(MODE) == NONE || (v::gget(MODE) == SEARCH && v::gget(FROM) >= bytes.len()));
        }
    }
}

pub fn c09_grep() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    start(off);
    let mut it = GrepIterator::<Probe>::new("p", bytes, off);
    loop {
        let r = it.next();
        reported(bytes, &r);
        if r.is_none() {
            break;
        }
    }
}

/// One search from any position.
pub fn c09_search() {
    let bytes = v::any_bytes();
    let off = v::any_usize();
    v::assume(off <= bytes.len());
    start(off);
    let it = GrepIterator::<Probe>::new("p", bytes, 0);
    let r = it.search(bytes, off);
    reported(bytes, &r);
}
