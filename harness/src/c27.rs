//! ripdlt prints the statistic it has made, and fails if it cannot make one.
//!
//! What the statistics yield is arbitrary (C23 and C24 are about it). The values of every line that is printed behind
//! are compared with it, at an arbitrary but fixed key.
use crate::v;
use rapiddlt::dlt_v1::DltMessageType;
use rapiddlt::dltbuffer::DltBuffer;
use std::collections::BTreeMap;

mod program {
    include!("/repo/ripdlt/src/main.rs");
    pub mod api {
        use super::*;
        pub fn run() {
            super::main()
        }
        pub fn summary_multithreaded(b: DltBuffer, typ: ProcessingType) -> usize {
            let _: fn(DltBuffer, ProcessingType) -> usize = super::multithreaded;
            crate::c27::number()
        }
        /// The functions that are replaced.
        pub fn replaced() {
            let _: [fn(&[u8]) -> usize; 4] = [super::count, super::count_hello_world, super::count_hello_world_raw, super::count_hello_world_grepit];
            let _: [fn(&[u8]) -> usize; 2] = [super::lifecycle_iter, super::lifecycle_itertools];
            let _: fn(&[u8]) -> BTreeMap<usize, usize> = super::continuous_timestamp_histogram;
            let _: fn(DltBuffer) -> BTreeMap<usize, usize> = super::par_continuous_timestamp_histogram;
            let _: fn(&[u8]) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = super::timestamp_splitit;
            let _: fn(DltBuffer) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = super::par_timestamp_splitit;
            let _: [fn(DltBuffer) -> BTreeMap<usize, usize>; 4] = [super::lifecycle_histogram, super::histogram_payload, super::histogram_message, super::histogram_hello_world];
            let _: fn(DltBuffer) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = super::lifecycle_splitit;
            let _: fn(DltBuffer) -> BTreeMap<(bool, Option<DltMessageType>), usize> = super::mstp_info_histogram;
        }
    }
}
use program::api;

/// What is to be printed: the number, or the number at the focus key (and at the focus key of the inner map).
const VALUE: usize = 0;
const INNER: usize = 1;
/// The product printed at the focus key.
const PRODUCT: usize = 2;
/// The sum of the products printed so far.
const SUM: usize = 3;
/// The values of the line.
const ARG: usize = 10;
/// How the statistic is printed.
const KIND: usize = 32;
/// Has it been made?
const MADE: usize = 33;
/// How many values does the line have?
const N: usize = 34;
/// Is there something at the focus key?
const PRESENT: usize = 35;
/// How often has it been printed?
const LINES: usize = 36;
/// How often has the total been printed?
const TOTALS: usize = 37;
/// Is the name or key printed first that of the focus key? (0: unknown, 1: no, 2: yes)
const NAMED: usize = 38;
/// Has the operating system failed?
const FAILED: usize = 39;
/// Is there but one size?
const ALONE: usize = 40;
/// Are there too few arguments?
const USAGE: usize = 41;
/// How often has the histogram been looked through?
const LOOKED: usize = 42;

const INTERVAL: usize = 1;
const SIZE: usize = 2;
const OFFSET: usize = 3;
const NUMBER: usize = 4;
const TYPE: usize = 5;
const ECU: usize = 6;
/// There must not be a statistic.
const NONE: usize = 7;

type Split = BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)>;
type TypeKey = (bool, Option<DltMessageType>);

pub fn hook_io_failed() {
    if v::gget(KIND) != NONE {
        v::assume(false);
    }
    v::gset(FAILED, 1);
}
fn made() {
    v::reach("made");
    v::verify("there is no statistic without a file, a known command and a known way to open it", v::gget(KIND) != NONE || v::gget(FAILED) == 0 && v::gget(PRESENT) == 1);
    v::gset(MADE, 1);
}
pub fn number() -> usize {
    made();
    let n = v::any_usize();
    v::gset(VALUE, n);
    v::gset(PRESENT, 1);
    n
}
fn histogram() -> BTreeMap<usize, usize> {
    made();
    let m = v::arbitrary::<BTreeMap<usize, usize>>();
    v::gset(PRESENT, 0);
    if let Some(n) = m.get(&v::focus_key::<usize>()) {
        v::gset(VALUE, *n);
        v::gset(PRESENT, 1);
    }
    if v::gget(ALONE) == 1 {
        v::assume(m.len() == v::gget(PRESENT));
    }
    m
}
fn by_ecu() -> Split {
    made();
    let m = v::arbitrary::<Split>();
    v::gset(PRESENT, 0);
    if let Some((i, n)) = m.get(&v::focus_key::<[u8; 4]>()) {
        v::gset(VALUE, *n);
        v::gset(PRESENT, 1);
        v::gset(INNER, match i.get(&v::focus_key::<u32>()) {
            Some(k) => *k + 1,
            None => 0,
        });
    }
    m
}
pub fn summary_count(part: &[u8]) -> usize {
    number()
}
pub fn summary_count_hello_world(part: &[u8]) -> usize {
    number()
}
pub fn summary_count_hello_world_raw(part: &[u8]) -> usize {
    number()
}
pub fn summary_count_hello_world_grepit(part: &[u8]) -> usize {
    number()
}
pub fn summary_continuous_timestamp_histogram(part: &[u8]) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_par_continuous_timestamp_histogram(b: DltBuffer) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_lifecycle_histogram(b: DltBuffer) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_histogram_payload(b: DltBuffer) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_histogram_message(b: DltBuffer) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_histogram_hello_world(b: DltBuffer) -> BTreeMap<usize, usize> {
    histogram()
}
pub fn summary_timestamp_splitit(part: &[u8]) -> Split {
    by_ecu()
}
pub fn summary_par_timestamp_splitit(b: DltBuffer) -> Split {
    by_ecu()
}
pub fn summary_lifecycle_splitit(b: DltBuffer) -> Split {
    by_ecu()
}
pub fn summary_mstp_info_histogram(b: DltBuffer) -> BTreeMap<TypeKey, usize> {
    made();
    let m = v::arbitrary::<BTreeMap<TypeKey, usize>>();
    v::gset(PRESENT, 0);
    if let Some(n) = m.get(&v::focus_key::<TypeKey>()) {
        v::gset(VALUE, *n);
        v::gset(PRESENT, 1);
    }
    m
}

pub fn hook_map_iterated() {
    v::gset(LOOKED, v::gget(LOOKED) + 1);
}
/// What the histogram of sizes holds at other keys is arbitrary; what is seen of it a second time is not what was seen before.
pub fn hook_map_stored(key: usize, number: usize) -> bool {
    v::gget(KIND) == SIZE && v::gget(LOOKED) == 1
}
pub fn hook_line(n: usize) {
    v::gset(N, n);
}
/// The ECU printed next.
pub fn hook_name(name: &[u8]) {
    let k = v::focus_key::<[u8; 4]>();
    v::gset(NAMED, if name.len() == 4 && name[0] == k[0] && name[1] == k[1] && name[2] == k[2] && name[3] == k[3] { 2 } else { 1 });
}
pub fn hook_other(i: usize) {
    if v::gget(MADE) == 1 && !(i == 0 && v::gget(KIND) == ECU) {
        // printed in another way
        v::unsupported();
    }
}
pub fn hook_printed__key(i: usize, x: &TypeKey) {
    if v::gget(MADE) == 1 {
        v::gset(NAMED, if v::is_focus_key(x) { 2 } else { 1 });
    }
}
pub fn hook_printed__usize(i: usize, x: &usize) {
    value(i, *x);
}
pub fn hook_printed__u32(i: usize, x: &u32) {
    value(i, *x as usize);
}
pub fn hook_printed__u64(i: usize, x: &u64) {
    value(i, *x as usize);
}
pub fn hook_printed__i32(i: usize, x: &i32) {
    value(i, *x as usize);
}
pub fn hook_printed__i64(i: usize, x: &i64) {
    value(i, *x as usize);
}
pub fn hook_printed__ecu(i: usize, x: &(BTreeMap<u32, usize>, usize)) {
    if v::gget(MADE) == 0 {
        return;
    }
    if i != 1 || v::gget(N) != 2 || v::gget(NAMED) == 0 || v::gget(KIND) != ECU {
        v::unsupported();
        return;
    }
    if v::gget(NAMED) == 2 {
        v::gset(LINES, v::gget(LINES) + 1);
        v::verify("the number of messages printed for an ECU is the one counted", x.1 == v::gget(VALUE));
        let k = match x.0.get(&v::focus_key::<u32>()) {
            Some(k) => *k + 1,
            None => 0,
        };
        v::verify("the histogram printed for an ECU is the one made", k == v::gget(INNER));
    }
    v::gset(NAMED, 0);
}
fn value(i: usize, x: usize) {
    if v::gget(MADE) == 0 {
        return;
    }
    if i >= 3 {
        v::unsupported();
        return;
    }
    v::gset(ARG + i, x);
    if i + 1 < v::gget(N) {
        return;
    }
    // the line is complete
    let (a, b, c) = (v::gget(ARG), v::gget(ARG + 1), v::gget(ARG + 2));
    let k = v::focus_key::<usize>();
    match (v::gget(KIND), v::gget(N)) {
        (INTERVAL, 3) => {
            v::verify("an interval is one second long", b == a + 1);
            if a == k {
                counted(c);
            }
        }
        (SIZE, 3) => {
            v::verify("the product of size and number is printed in kB", c == a * b / 1024);
            v::assume(v::gget(SUM) < 1 << 60 && a * b < 1 << 60);
            v::gset(SUM, v::gget(SUM) + a * b);
            if a == k {
                v::assume(a < 1 << 30 && b < 1 << 30);
                v::gset(PRODUCT, a * b);
                counted(b);
            }
        }
        (SIZE, 1) => {
            if v::gget(ALONE) == 1 {
                v::verify("the total of one size is its product", a == v::gget(PRODUCT) / 1024);
            } else if v::gget(LOOKED) == 1 {
                v::verify("the total printed is the sum of the products", a == v::gget(SUM) / 1024);
            } else {
                // the other sizes seen when the lines were printed are not those seen when they were added
                v::verify("the total is at least the product of every size", a >= v::gget(PRODUCT) / 1024);
            }
            v::gset(TOTALS, v::gget(TOTALS) + 1);
        }
        (OFFSET, 3) => {
            v::verify("an interval of offsets is 100M long", b == a + 100);
            if a == k * 100 {
                counted(c);
            }
        }
        (NUMBER, 1) => {
            counted(a);
        }
        (TYPE, 2) => {
            if v::gget(NAMED) == 2 {
                counted(b);
            }
            v::gset(NAMED, 0);
        }
        _ => v::unsupported(),
    }
}
fn counted(x: usize) {
    v::reach("a line of the statistic");
    v::gset(LINES, v::gget(LINES) + 1);
    v::verify("the number printed is the one counted", x == v::gget(VALUE));
}

/// The program may also end here.
pub fn hook_exit(code: i32) {
    if v::gget(KIND) != NONE {
        v::verify("a statistic that is made is no failure", code == 0);
        printed();
    } else if v::gget(MADE) == 0 && v::gget(USAGE) == 0 {
        v::verify("what cannot be done is a failure", code != 0);
    }
}

fn start(kind: usize) {
    v::assume(v::file().len() < 1 << 40);
    v::gset(KIND, kind);
    v::gset(MADE, 0);
    v::gset(N, 0);
    v::gset(PRESENT, 0);
    v::gset(LINES, 0);
    v::gset(TOTALS, 0);
    v::gset(NAMED, 0);
    v::gset(FAILED, 0);
    v::gset(VALUE, 0);
    v::gset(INNER, 0);
    v::gset(PRODUCT, 0);
    v::gset(SUM, 0);
    v::gset(ALONE, 0);
    v::gset(LOOKED, 0);
    v::gset(USAGE, 0);
}
fn command(name: &str, kind: usize) {
    start(kind);
    follow(name, kind);
}
fn command_alone(name: &str, kind: usize) {
    start(kind);
    v::gset(ALONE, 1);
    follow(name, kind);
}
fn follow(name: &str, kind: usize) {
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1) == "mmap" || v::arg(1) == "read");
    v::assume(v::arg(2) == name);
    api::run();
    v::reach("ended");
    printed();
}
fn printed() {
    v::verify("what is counted is printed once, and nothing else", v::gget(LINES) == v::gget(PRESENT));
    v::verify("the total is printed once", v::gget(TOTALS) == if v::gget(KIND) == SIZE { 1 } else { 0 });
}
pub fn c27_lifecycles() {
    command("histogram_lifecycles", INTERVAL);
}
pub fn c27_timestamps() {
    command("histogram_timestamp", INTERVAL);
}
pub fn c27_par_timestamps() {
    command("par_histogram_timestamp", INTERVAL);
}
pub fn c27_payload_size() {
    command("histogram_payload_size", SIZE);
}
pub fn c27_message_size() {
    command("histogram_message_size", SIZE);
}
pub fn c27_payload_size_alone() {
    command_alone("histogram_payload_size", SIZE);
}
pub fn c27_message_size_alone() {
    command_alone("histogram_message_size", SIZE);
}
pub fn c27_hello_world_offsets() {
    command("histogram_hello_world", OFFSET);
}
pub fn c27_message_type() {
    v::focus_key::<TypeKey>();
    command("histogram_message_type", TYPE);
}
pub fn c27_lifecycles_by_ecu() {
    command("split_lifecycles", ECU);
}
pub fn c27_split_timestamp() {
    command("split_timestamp", ECU);
}
pub fn c27_par_split_timestamp() {
    command("par_split_timestamp", ECU);
}
pub fn c27_count() {
    command("count", NUMBER);
}
pub fn c27_par_count() {
    command("par_count", NUMBER);
}
pub fn c27_hello_world() {
    command("count_hello_world", NUMBER);
}
pub fn c27_hello_world_raw() {
    command("count_hello_world_raw", NUMBER);
}
pub fn c27_hello_world_grepit() {
    command("count_hello_world_grepit", NUMBER);
}
pub fn c27_par_hello_world() {
    command("par_count_hello_world", NUMBER);
}
pub fn c27_par_hello_world_raw() {
    command("par_count_hello_world_raw", NUMBER);
}
pub fn c27_par_hello_world_grepit() {
    command("par_count_hello_world_grepit", NUMBER);
}

// without a statistic (PRESENT: is there a file and are the arguments good?)
pub fn c27_refused_file() {
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1) == "mmap" || v::arg(1) == "read");
    v::assume(v::arg(2) == "count");
    start(NONE);
    v::gset(PRESENT, 1);
    api::run();
    v::reach("ended");
    v::verify("a file that cannot be loaded is an error", v::gget(FAILED) == 0);
    v::verify("the statistic is made", v::gget(MADE) == 1);
}
pub fn c27_refused_access() {
    v::assume(v::arg_count() >= 4);
    v::assume(!(v::arg(1) == "mmap" || v::arg(1) == "read"));
    start(NONE);
    api::run();
    v::unreachable("an unknown way to open the file is an error");
}
pub fn c27_refused_command() {
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1) == "mmap" || v::arg(1) == "read");
    let name = v::arg(2);
    v::assume(!(name == "histogram_lifecycles" || name == "split_lifecycles" || name == "split_timestamp" || name == "par_split_timestamp"));
    v::assume(!(name == "histogram_timestamp" || name == "par_histogram_timestamp" || name == "histogram_message_type"));
    v::assume(!(name == "histogram_payload_size" || name == "histogram_message_size" || name == "count" || name == "par_count"));
    v::assume(!(name == "histogram_hello_world" || name == "count_hello_world" || name == "count_hello_world_raw" || name == "count_hello_world_grepit"));
    v::assume(!(name == "par_count_hello_world" || name == "par_count_hello_world_raw" || name == "par_count_hello_world_grepit"));
    v::assume(!(name == "par_iter" || name == "iter" || name == "itertools"));
    start(NONE);
    api::run();
    v::unreachable("an unknown command is an error");
}
pub fn c27_usage() {
    v::assume(v::arg_count() >= 1 && v::arg_count() < 4);
    start(NONE);
    v::gset(USAGE, 1);
    api::run();
    v::reach("ended");
    v::verify("without arguments there is no statistic", v::gget(MADE) == 0);
}
