//! What dd_dlt writes.
//!
//! The program is followed on arbitrary input. `hook_stdin_read` is called when bytes have been read into (a part of)
//! a buffer, `hook_stdout_write` when bytes have been written.
use crate::v;

mod program {
    include!("/repo/dd_dlt/src/main.rs");
    pub fn run() -> bool {
        crate::probe::Outcome::good(main())
    }
}

/// Messages written completely.
const MESSAGES: usize = 0;
/// Bytes of the current chunk read so far, and the buffer they are in.
const GOT: usize = 1;
const BUFFER: usize = 35;
/// Bytes that may still come.
const BUDGET: usize = 3;
/// Position in the message being written.
const POS: usize = 32;
/// Was the last write short?
const SHORT: usize = 33;
/// Has the end of the input been met?
const ENDED: usize = 34;

fn payload_size() -> usize {
    match v::parsed::<u16>(v::arg(3)) {
        Some(n) => n as usize,
        None => 0,
    }
}

pub fn hook_stdin_read(buf: &[u8], n: usize) {
    v::verify("nothing is read beyond the end", v::gget(ENDED) == 0);
    v::verify("the message of a chunk is complete before the next is read", v::gget(POS) == 0);
    v::assume(v::gget(BUDGET) >= n);
    v::gset(BUDGET, v::gget(BUDGET) - n);
    let got = v::gget(GOT);
    if got == 0 {
        v::gset(BUFFER, v::buffer_of(buf));
    }
    if v::buffer_len(buf) != payload_size() {
        v::unsupported();
    }
    v::verify("a chunk is read into one place, in order", v::start_of(buf) == got && v::gget(BUFFER) == v::buffer_of(buf));
    v::verify("no more than the payload is read", got + n <= payload_size());
    v::gset(GOT, got + n);
}
pub fn hook_stdin_end() {
    v::gset(ENDED, 1);
}

/// The message for a chunk is: storage header (0), standard header (16), timestamp (20), extended header (24) and
/// payload (34).
fn expected(p: usize) -> u8 {
    let n = v::gget(MESSAGES);
    let ecu = v::arg(1).as_bytes();
    let app = v::arg(2).as_bytes();
    let len = (18 + payload_size()) as u16;
    match p {
        0 => b'D',
        1 => b'L',
        2 => b'T',
        3 => 1,
        4..=7 => ((n / 100) as u32).to_le_bytes()[p - 4],
        8..=11 => ((n % 100 * 10000) as u32).to_le_bytes()[p - 8],
        12..=15 => ecu[p - 12],
        // with extended header and timestamp, version 1
        16 => 0x31,
        17 => n as u8,
        18..=19 => len.to_be_bytes()[p - 18],
        20..=23 => ((n * 100) as u32).to_be_bytes()[p - 20],
        // verbose, log, info
        24 => 0x41,
        25 => 0,
        26..=29 => app[p - 26],
        _ => app[p - 30],
    }
}

macro_rules! bytes {
    ($b:ident, $p:ident, $($i:literal)*) => { $(
        if $b.len() > $i {
            v::verify("the headers of a message", $b[$i] == expected($p + $i));
        }
    )* };
}

pub fn hook_stdout_write(b: &[u8]) {
    v::verify("a message is written for a complete chunk", v::gget(GOT) == payload_size());
    if v::gget(SHORT) == 1 {
        v::verify("what a short write left is written", v::start_of(b) != 0);
        v::unsupported();
    }
    let p = v::gget(POS);
    if p < 34 {
        v::reach("header");
        if b.len() > 34 - p {
            v::unsupported();
        }
        bytes!(b, p, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33);
        v::gset(POS, p + b.len());
    } else {
        v::reach("payload");
        v::verify("the payload is the chunk", v::buffer_of(b) == v::gget(BUFFER) && v::start_of(b) == 0 && b.len() == payload_size());
        v::gset(MESSAGES, v::gget(MESSAGES) + 1);
        v::gset(GOT, 0);
        v::gset(POS, 0);
    }
}
pub fn hook_stdout_short(b: &[u8]) {
    v::gset(SHORT, 1);
}

fn start() -> usize {
    let n = payload_size();
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1).len() == 4 && v::arg(2).len() == 4);
    let input = v::any_usize();
    v::assume(input < 1 << 40);
    v::gset(MESSAGES, 0);
    v::gset(GOT, 0);
    v::gset(BUFFER, 0);
    v::gset(BUDGET, input);
    v::gset(POS, 0);
    v::gset(SHORT, 0);
    v::gset(ENDED, 0);
    n
}

pub fn c20_output() {
    let n = start();
    v::assume(n >= 1 && n <= 65517);
    let good = program::run();
    ended(good);
}

pub fn hook_exit(code: i32) {
    ended(code == 0);
}

fn ended(good: bool) {
    if good {
        v::reach("done");
        v::verify("every message is complete", v::gget(POS) == 0 && v::gget(GOT) < payload_size());
        v::verify("all of the input is used", v::gget(ENDED) == 1);
    } else {
        v::reach("failed");
    }
}
