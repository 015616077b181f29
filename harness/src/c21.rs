//! What dd_dlt does when something fails.
use crate::v;

mod program {
    include!("/repo/dd_dlt/src/main.rs");
    pub fn run() -> bool {
        crate::probe::Outcome::good(main())
    }
}

/// Bytes that may still come.
const BUDGET: usize = 0;
/// Has an operation failed?
const FAILED: usize = 32;
/// Was the last write short?
const SHORT: usize = 33;
/// Has anything been written since the last flush?
const PENDING: usize = 34;
/// Has the end of the input been met?
const ENDED: usize = 35;
/// Are the arguments unusable?
const REFUSED: usize = 36;

pub fn hook_io_failed() {
    v::gset(FAILED, 1);
}
pub fn hook_stdin_read(buf: &[u8], n: usize) {
    v::assume(v::gget(BUDGET) >= n);
    v::gset(BUDGET, v::gget(BUDGET) - n);
    v::verify("what a short write left is written", v::gget(SHORT) == 0);
    v::verify("nothing is read beyond the end", v::gget(ENDED) == 0);
}
pub fn hook_stdin_end() {
    v::gset(ENDED, 1);
}
pub fn hook_stdout_write(b: &[u8]) {
    if v::gget(REFUSED) == 1 {
        v::unreachable("unusable arguments are refused before anything is written");
    }
    if v::gget(SHORT) == 1 {
        v::verify("what a short write left is written", v::start_of(b) != 0);
        v::unsupported();
    }
    v::gset(PENDING, 1);
}
pub fn hook_stdout_short(b: &[u8]) {
    v::gset(SHORT, 1);
    v::gset(PENDING, 1);
}
pub fn hook_stdout_flush() {
    v::gset(PENDING, 0);
}

fn start() {
    v::gset(FAILED, 0);
    v::gset(SHORT, 0);
    v::gset(PENDING, 0);
    v::gset(ENDED, 0);
    v::gset(REFUSED, 0);
    let input = v::any_usize();
    v::assume(input < 1 << 40);
    v::gset(BUDGET, input);
}

pub fn c21_failures() {
    start();
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1).len() == 4 && v::arg(2).len() == 4);
    match v::parsed::<u16>(v::arg(3)) {
        Some(n) => v::assume(n >= 1 && n <= 65517),
        None => v::assume(false),
    }
    let good = program::run();
    ended(good);
}

pub fn hook_exit(code: i32) {
    if v::gget(REFUSED) == 0 {
        ended(code == 0);
    }
}

fn ended(good: bool) {
    if good {
        v::reach("done");
        v::verify("a failure is reported", v::gget(FAILED) == 0);
        v::verify("all of the input is used", v::gget(ENDED) == 1);
        v::verify("all of the output has left the program", v::gget(SHORT) == 0 && v::gget(PENDING) == 0);
    } else {
        v::reach("failed");
        v::verify("nothing but a failure is reported", v::gget(FAILED) == 1);
    }
}

/// Payload sizes and identifiers that cannot be written into a message.
pub fn c21_refused() {
    start();
    let fits = match v::parsed::<u16>(v::arg(3)) {
        Some(n) => n >= 1 && n <= 65517,
        None => false,
    };
    if v::arg_count() >= 4 && fits {
        v::assume(v::arg(1).len() != 4 || v::arg(2).len() != 4);
    }
    v::gset(REFUSED, 1);
    v::reach("refused");
    let _ = program::run();
}
