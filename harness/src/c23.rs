//! The parallel variants of the statistics of ripdlt lose nothing.
//!
//! What is made of one part of the file is replaced by an arbitrary result (C24 is about it), as are the parts
//! themselves (C11 is about them). The threads are replaced by what rayon promises: each part is looked at once, and
//! results are combined in the order of the parts, in any grouping.
use crate::v;
use rapiddlt::dlt_v1::DltMessageType;
use rapiddlt::dltbuffer::DltBuffer;
use std::collections::BTreeMap;

mod program {
    include!("/repo/ripdlt/src/main.rs");
    pub mod api {
        use super::*;
        pub fn run() {
            super::main()
        }
        pub fn count() -> usize {
            super::multithreaded(crate::c23::buffer(), ProcessingType::Count)
        }
        pub fn iter() -> usize {
            super::multithreaded(crate::c23::buffer(), ProcessingType::Iterative)
        }
        pub fn hello_world() -> usize {
            super::multithreaded(crate::c23::buffer(), ProcessingType::CtrlMsg)
        }
        pub fn hello_world_raw() -> usize {
            super::multithreaded(crate::c23::buffer(), ProcessingType::CtrlMsgRaw)
        }
        pub fn hello_world_grepit() -> usize {
            super::multithreaded(crate::c23::buffer(), ProcessingType::CtrlMsgGrepIt)
        }
        pub fn timestamps() -> BTreeMap<usize, usize> {
            super::par_continuous_timestamp_histogram(crate::c23::buffer())
        }
        pub fn split_timestamps() -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
            super::par_timestamp_splitit(crate::c23::buffer())
        }
        /// The functions that are replaced below.
        pub fn replaced() {
            let _: [fn(&[u8]) -> usize; 5] = [super::count, super::count_hello_world, super::count_hello_world_raw, super::count_hello_world_grepit, super::lifecycle_iter];
            let _: fn(&[u8]) -> BTreeMap<usize, usize> = super::continuous_timestamp_histogram;
            let _: fn(&[u8]) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = super::timestamp_splitit;
            let _: fn(&[u8]) -> usize = super::lifecycle_itertools;
            let _: [fn(DltBuffer) -> BTreeMap<usize, usize>; 4] = [super::lifecycle_histogram, super::histogram_payload, super::histogram_message, super::histogram_hello_world];
            let _: fn(DltBuffer) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = super::lifecycle_splitit;
            let _: fn(DltBuffer) -> BTreeMap<(bool, Option<DltMessageType>), usize> = super::mstp_info_histogram;
        }
    }
}
use program::api;

/// The sum of the results so far: of the numbers, at the focus key, and at the focus keys of both maps.
const TOTAL: usize = 0;
const INNER: usize = 1;
/// The number of parts and the number of those looked at.
const PARTS: usize = 2;
const LOOKED: usize = 3;
/// What is made of a part.
const MODE: usize = 32;
/// Has the file been taken apart?
const APART: usize = 33;
/// Is it only of interest which statistic is made?
const WHICH: usize = 34;
/// Is it to be made of parts?
const PARALLEL: usize = 35;

const COUNT: usize = 1;
const ITER: usize = 2;
const HELLO: usize = 3;
const RAW: usize = 4;
const GREP: usize = 5;
const TIME: usize = 6;
const SPLIT: usize = 7;
const ITERTOOLS: usize = 8;
const LIFE: usize = 9;
const LIFE_SPLIT: usize = 10;
const PAYLOAD: usize = 11;
const SIZE: usize = 12;
const TYPE: usize = 13;
const HELLO_TIMES: usize = 14;

pub fn hook_io_failed() {
    v::assume(false);
}
/// The parts the file is looked at in (C11).
pub fn summary_partition(b: &DltBuffer, num: usize) -> Vec<&'static [u8]> {
    v::verify("the file is taken apart once", v::gget(APART) == 0);
    v::verify("there is at least one part", num >= 1);
    v::gset(APART, 1);
    let n = v::any_usize();
    v::assume(n <= num && n <= v::file().len());
    v::gset(PARTS, n);
    let mut r = Vec::new();
    while r.len() < n {
        let at = v::any_usize();
        let end = v::any_usize();
        v::assume(at <= end && end <= v::file().len());
        r.push(&v::file()[at..end]);
    }
    r
}

fn look(mode: usize) {
    v::reach("a part is looked at");
    v::verify("the statistic asked for is made of a part", v::gget(MODE) == mode);
    v::verify("a parallel statistic is made of parts", v::gget(PARALLEL) == v::gget(APART));
    v::assume(v::gget(WHICH) == 0);
    v::gset(LOOKED, v::gget(LOOKED) + 1);
}
/// Adds to a sum. (There is at least a byte of the file for everything counted.)
fn add(to: usize, n: usize) {
    v::assume(n < 1 << 40 && v::gget(to) + n < 1 << 40);
    v::gset(to, v::gget(to) + n);
}
fn number(mode: usize) -> usize {
    look(mode);
    let n = v::any_usize();
    add(TOTAL, n);
    n
}
pub fn summary_count(part: &[u8]) -> usize {
    number(COUNT)
}
pub fn summary_count_hello_world(part: &[u8]) -> usize {
    number(HELLO)
}
pub fn summary_count_hello_world_raw(part: &[u8]) -> usize {
    number(RAW)
}
pub fn summary_count_hello_world_grepit(part: &[u8]) -> usize {
    number(GREP)
}
pub fn summary_lifecycle_iter(part: &[u8]) -> usize {
    number(ITER)
}
pub fn summary_continuous_timestamp_histogram(part: &[u8]) -> BTreeMap<usize, usize> {
    look(TIME);
    let m = v::arbitrary::<BTreeMap<usize, usize>>();
    if let Some(n) = m.get(&v::focus_key::<usize>()) {
        add(TOTAL, *n);
    }
    m
}
pub fn summary_timestamp_splitit(part: &[u8]) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
    look(SPLIT);
    let m = v::arbitrary::<BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)>>();
    if let Some((i, n)) = m.get(&v::focus_key::<[u8; 4]>()) {
        add(TOTAL, *n);
        if let Some(k) = i.get(&v::focus_key::<u32>()) {
            add(INNER, *k);
        }
    }
    m
}
// the others are only asked for
fn asked(mode: usize) {
    look(mode);
    v::assume(false);
}
pub fn summary_lifecycle_itertools(b: &[u8]) -> usize {
    number(ITERTOOLS)
}
pub fn summary_lifecycle_histogram(b: DltBuffer) -> BTreeMap<usize, usize> {
    asked(LIFE);
    BTreeMap::new()
}
pub fn summary_histogram_payload(b: DltBuffer) -> BTreeMap<usize, usize> {
    asked(PAYLOAD);
    BTreeMap::new()
}
pub fn summary_histogram_message(b: DltBuffer) -> BTreeMap<usize, usize> {
    asked(SIZE);
    BTreeMap::new()
}
pub fn summary_histogram_hello_world(b: DltBuffer) -> BTreeMap<usize, usize> {
    asked(HELLO_TIMES);
    BTreeMap::new()
}
pub fn summary_lifecycle_splitit(b: DltBuffer) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
    asked(LIFE_SPLIT);
    BTreeMap::new()
}
pub fn summary_mstp_info_histogram(b: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType>), usize> {
    asked(TYPE);
    BTreeMap::new()
}

pub fn buffer() -> DltBuffer {
    match DltBuffer::read_file(v::file_name()) {
        Ok(b) => b,
        Err(_) => {
            v::assume(false);
            loop {}
        }
    }
}
fn start(mode: usize) {
    v::assume(v::file().len() < 1 << 40);
    v::gset(MODE, mode);
    v::gset(APART, 0);
    v::gset(TOTAL, 0);
    v::gset(INNER, 0);
    v::gset(PARTS, 0);
    v::gset(LOOKED, 0);
    v::gset(WHICH, 0);
    v::gset(PARALLEL, 1);
}
fn all_parts() {
    if v::gget(APART) == 0 {
        // done in another way
        v::unsupported();
    }
    v::reach("ended");
    v::verify("every part is looked at", v::gget(LOOKED) == v::gget(PARTS));
}
fn number_is_the_sum(n: usize) {
    all_parts();
    v::verify("the number is the sum of those of the parts", n == v::gget(TOTAL));
}

pub fn c23_count() {
    start(COUNT);
    number_is_the_sum(api::count());
}
pub fn c23_iter() {
    start(ITER);
    number_is_the_sum(api::iter());
}
pub fn c23_hello_world() {
    start(HELLO);
    number_is_the_sum(api::hello_world());
}
pub fn c23_hello_world_raw() {
    start(RAW);
    number_is_the_sum(api::hello_world_raw());
}
pub fn c23_hello_world_grepit() {
    start(GREP);
    number_is_the_sum(api::hello_world_grepit());
}
pub fn c23_timestamps() {
    start(TIME);
    let r = api::timestamps();
    all_parts();
    let n = match r.get(&v::focus_key::<usize>()) {
        Some(n) => *n,
        None => 0,
    };
    v::verify("the number at a key is the sum of those of the parts", n == v::gget(TOTAL));
}
pub fn c23_split_timestamps() {
    start(SPLIT);
    // what happens to the numbers of another ECU
    v::focus_key::<[u8; 4]>();
    v::beside_foreign("next", "std::collections::btree_map::IntoIter<u32, usize>");
    v::beside_foreign("entry", "std::collections::BTreeMap<u32, usize>");
    v::beside_foreign("or_default", "std::collections::btree_map::Entry<'_, u32, usize>");
    let r = api::split_timestamps();
    all_parts();
    match r.get(&v::focus_key::<[u8; 4]>()) {
        Some((i, n)) => {
            v::reach("an ECU");
            v::verify("the messages of an ECU are those of the parts", *n == v::gget(TOTAL));
            let k = match i.get(&v::focus_key::<u32>()) {
                Some(k) => *k,
                None => 0,
            };
            v::verify("the number at a key of an ECU is the sum of those of the parts", k == v::gget(INNER));
        }
        None => v::verify("an ECU is absent only if no part has it", v::gget(TOTAL) == 0 && v::gget(INNER) == 0),
    }
}
/// Each name on the command line runs its statistic.
fn command(name: &str, mode: usize, parallel: bool) {
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1) == "mmap" || v::arg(1) == "read");
    v::assume(v::arg(2) == name);
    start(mode);
    v::gset(WHICH, 1);
    v::gset(PARALLEL, if parallel { 1 } else { 0 });
    api::run();
    if parallel {
        all_parts();
    } else {
        v::unreachable("the program ends without the statistic asked for");
    }
}
pub fn c23_command_count() {
    command("par_count", COUNT, true);
}
pub fn c23_command_iter() {
    command("par_iter", ITER, true);
}
pub fn c23_command_hello_world() {
    command("par_count_hello_world", HELLO, true);
}
pub fn c23_command_hello_world_raw() {
    command("par_count_hello_world_raw", RAW, true);
}
pub fn c23_command_hello_world_grepit() {
    command("par_count_hello_world_grepit", GREP, true);
}
pub fn c23_command_timestamps() {
    command("par_histogram_timestamp", TIME, true);
}
pub fn c23_command_split_timestamps() {
    command("par_split_timestamp", SPLIT, true);
}
pub fn c23_serial_count() {
    command("count", COUNT, false);
}
pub fn c23_serial_iter() {
    command("iter", ITER, false);
}
pub fn c23_serial_itertools() {
    command("itertools", ITERTOOLS, false);
}
pub fn c23_serial_hello_world() {
    command("count_hello_world", HELLO, false);
}
pub fn c23_serial_hello_world_raw() {
    command("count_hello_world_raw", RAW, false);
}
pub fn c23_serial_hello_world_grepit() {
    command("count_hello_world_grepit", GREP, false);
}
pub fn c23_serial_hello_world_buckets() {
    command("histogram_hello_world", HELLO_TIMES, false);
}
pub fn c23_serial_timestamps() {
    command("histogram_timestamp", TIME, false);
}
pub fn c23_serial_split_timestamps() {
    command("split_timestamp", SPLIT, false);
}
pub fn c23_serial_lifecycles() {
    command("histogram_lifecycles", LIFE, false);
}
pub fn c23_serial_lifecycles_by_ecu() {
    command("split_lifecycles", LIFE_SPLIT, false);
}
pub fn c23_serial_payload_size() {
    command("histogram_payload_size", PAYLOAD, false);
}
pub fn c23_serial_message_size() {
    command("histogram_message_size", SIZE, false);
}
pub fn c23_serial_message_type() {
    command("histogram_message_type", TYPE, false);
}
