//! The statistics of ripdlt count what they are named after.
//!
//! The iterator over the messages of the file is replaced by its contract (C06): arbitrary messages, one behind the
//! other. Each message is also given to the definition of the statistic, at an arbitrary but fixed key.
use crate::v;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};
use rapiddlt::dltbuffer::DltBuffer;

mod program {
    include!("/repo/ripdlt/src/main.rs");
    pub mod api {
        use super::*;
        pub const BUCKET: usize = super::IDX_BUCKET_SIZE;
        pub const LONG: u32 = super::MIN_TIME_DMS;
        pub fn count(b: &[u8]) -> usize {
            super::count(b)
        }
        pub fn count_hello_world(b: &[u8]) -> usize {
            super::count_hello_world(b)
        }
        pub fn count_hello_world_grepit(b: &[u8]) -> usize {
            super::count_hello_world_grepit(b)
        }
        pub fn histogram_hello_world(b: DltBuffer) -> BTreeMap<usize, usize> {
            super::histogram_hello_world(b)
        }
        pub fn histogram_message(b: DltBuffer) -> BTreeMap<usize, usize> {
            super::histogram_message(b)
        }
        pub fn histogram_payload(b: DltBuffer) -> BTreeMap<usize, usize> {
            super::histogram_payload(b)
        }
        pub fn mstp_info_histogram(b: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType>), usize> {
            super::mstp_info_histogram(b)
        }
        pub fn continuous_timestamp_histogram(b: &[u8]) -> BTreeMap<usize, usize> {
            super::continuous_timestamp_histogram(b)
        }
        pub fn lifecycle_histogram(b: DltBuffer) -> BTreeMap<usize, usize> {
            super::lifecycle_histogram(b)
        }
        pub fn lifecycle_splitit(b: DltBuffer) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
            super::lifecycle_splitit(b)
        }
        pub fn timestamp_splitit(b: &[u8]) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
            super::timestamp_splitit(b)
        }
        pub fn lifecycle_iter(b: &[u8]) -> usize {
            super::lifecycle_iter(b)
        }
        pub fn lifecycle_itertools(b: &[u8]) -> usize {
            super::lifecycle_itertools(b)
        }
    }
}
use matchit::searchable::grepit::GrepIterator;
use program::api;
use rapiddlt::dlt_v1::{DltLogMessageTypeInfo, DltMessageType, MessageType};
use std::collections::BTreeMap;

/// End of the last message.
const CUR: usize = 0;
/// What the statistic is at the focus key.
const COUNT: usize = 1;
/// Positions of the first and the last message of the current run.
const FIRST: usize = 2;
const LAST: usize = 3;
/// The number of messages of the focus ECU.
const MESSAGES: usize = 4;
/// The number printed.
const NUMBER: usize = 5;
/// The statistic.
const MODE: usize = 32;
/// Have all the messages been given out?
const ENDED: usize = 33;
/// Is there a current run?
const OPEN: usize = 34;

/// If it is not 0, fewer messages than that are given out from now on.
const FEW: usize = 35;
/// Has a number been printed?
const PRINTED: usize = 36;

const TIMESTAMP: usize = 20;
const ECU: usize = 21;
const INFO: usize = 22;

type Entry = DltStorageEntry<'static>;

// the modes
const ALL: usize = 1;
const SIZE: usize = 2;
const PAYLOAD: usize = 3;
const TYPE: usize = 4;
const HELLO: usize = 5;
const RUNS: usize = 6; // of storage time
const LIFE: usize = 7; // lifecycles, by duration
const LIFE_ECU: usize = 8; // lifecycles of an ECU, by duration
const LONG: usize = 9; // long lifecycles
const ECU_MESSAGES: usize = 10;
const GREP: usize = 11;
const BUCKETS: usize = 12;

/// The messages of the file, one behind the other.
pub fn summary_next(it: &mut ReadFallbackIterator<'static, Entry>) -> Option<(usize, Entry)> {
    message()
}
/// The messages that match a pattern.
pub fn summary_next__grep(it: &mut GrepIterator<'static, Entry>) -> Option<(usize, Entry)> {
    message()
}
/// What is given out is the messages of the whole file.
pub fn before_new(bytes: &'static [u8], offset: usize) -> Option<ReadFallbackIterator<'static, Entry>> {
    whole(bytes, offset);
    None
}
pub fn before_new__grep(pattern: &str, bytes: &'static [u8], offset: usize) -> Option<GrepIterator<'static, Entry>> {
    whole(bytes, offset);
    None
}
fn whole(bytes: &'static [u8], offset: usize) {
    v::verify("aux: the file is looked at from its beginning", v::start_of(bytes) == 0 && offset == 0);
    v::verify("aux: the file is looked at to its end", bytes.len() == v::file().len());
}
fn message() -> Option<(usize, Entry)> {
    let file = v::file();
    if v::gget(ENDED) == 0 && v::any_bool() {
        let at = v::any_usize();
        v::assume(at >= v::gget(CUR) && at <= file.len());
        if let Some((n, e)) = Entry::try_read(&file[at..]) {
            v::gset(CUR, at + n);
            if v::gget(FEW) > 0 {
                v::assume(v::gget(FEW) > 1);
                v::gset(FEW, v::gget(FEW) - 1);
            }
            item(at, &e);
            return Some((at, e));
        }
        v::assume(false);
    }
    if v::gget(ENDED) == 0 {
        v::gset(ENDED, 1);
        close();
    }
    None
}

/// The timestamp of the message at that position, if there is one (C01).
fn timestamp(at: usize) -> Option<u32> {
    part(v::fun(TIMESTAMP, at + 20))
}
fn ecu(at: usize) -> Option<u32> {
    part(v::fun(ECU, at + 20))
}
fn part(t: usize) -> Option<u32> {
    if t == 0 {
        return None;
    }
    v::assume(t <= 1 << 32);
    Some((t - 1) as u32)
}
pub fn summary_timestamp(e: &DltEntry<'static>) -> Option<u32> {
    part(v::fun(TIMESTAMP, v::start_of(e.tail)))
}
pub fn summary_ecu_id(e: &DltEntry<'static>) -> Option<u32> {
    part(v::fun(ECU, v::start_of(e.tail)))
}
type Info = (bool, Option<DltMessageType>);
/// How the type of the message whose type is at that position compares to the focus (0: it is that).
fn compared(m: &MessageType) -> usize {
    use zerocopy::AsBytes;
    let x = v::fun(INFO, v::start_of(m.as_bytes()));
    v::assume(x < 6);
    x
}
/// The type of a message: all that is known of it is how it compares to the focus.
pub fn summary_info(m: &MessageType) -> Info {
    let (verbose, typ) = v::focus_key::<Info>();
    let x = compared(m);
    let another = match typ {
        Some(DltMessageType::DltTypeLog(DltLogMessageTypeInfo::DltLogInfo)) => DltMessageType::DltTypeLog(DltLogMessageTypeInfo::DltLogWarn),
        _ => DltMessageType::DltTypeLog(DltLogMessageTypeInfo::DltLogInfo),
    };
    match x {
        0 => (verbose, typ),
        1 => (!verbose, typ),
        2 => (verbose, Some(another)),
        3 => (!verbose, Some(another)),
        _ => {
            v::assume(typ.is_some());
            (if x == 4 { verbose } else { !verbose }, None)
        }
    }
}
/// The storage time of the message at that position.
fn secs(at: usize) -> u32 {
    let f = v::file();
    u32::from_le_bytes([f[at + 4], f[at + 5], f[at + 6], f[at + 7]])
}
fn storage_ecu(at: usize) -> [u8; 4] {
    let f = v::file();
    [f[at + 12], f[at + 13], f[at + 14], f[at + 15]]
}

fn found() {
    // there is at least one byte of the file for each of them
    v::assume(v::gget(COUNT) < 1 << 40);
    v::gset(COUNT, v::gget(COUNT) + 1);
}

/// Is the message at `b` part of the run that ends with the one at `a`?
fn continues(a: usize, b: usize) -> bool {
    match v::gget(MODE) {
        RUNS => secs(b) >= secs(a),
        LIFE => ecu(a) == ecu(b) && timestamp(b) >= timestamp(a),
        _ => timestamp(b) >= timestamp(a),
    }
}
/// Extends the current run, or begins another one.
fn run(at: usize) {
    if v::gget(OPEN) == 1 && continues(v::gget(LAST), at) {
        v::gset(LAST, at);
        return;
    }
    close();
    v::gset(OPEN, 1);
    v::gset(FIRST, at);
    v::gset(LAST, at);
}
/// The current run has ended.
fn close() {
    if v::gget(OPEN) == 0 {
        return;
    }
    v::gset(OPEN, 0);
    let (a, b) = (v::gget(FIRST), v::gget(LAST));
    let hit = match v::gget(MODE) {
        RUNS => secs(b) as usize - secs(a) as usize == v::focus_key::<usize>(),
        mode => match (timestamp(a), timestamp(b)) {
            (Some(x), Some(y)) => match mode {
                LIFE => (y - x) as usize / 10000 == v::focus_key::<usize>(),
                LIFE_ECU => (y - x) / 10000 == v::focus_key::<u32>(),
                _ => y - x >= api::LONG,
            },
            _ => false,
        },
    };
    if hit {
        found();
    }
}

fn item(at: usize, e: &Entry) {
    match v::gget(MODE) {
        ALL | GREP => found(),
        SIZE => {
            if e.len() == v::focus_key::<usize>() {
                found();
            }
        }
        PAYLOAD => {
            let n = match e.dlt.payload() {
                Some(p) => p.len(),
                None => 0,
            };
            if n == v::focus_key::<usize>() {
                found();
            }
        }
        TYPE => {
            if let Some(x) = e.dlt.extended_header() {
                if compared(&x.msin) == 0 {
                    found();
                }
            }
        }
        HELLO => {
            if let Some(p) = e.dlt.payload() {
                if memchr::memmem::find(p, b"Hello World").is_some() {
                    found();
                }
            }
        }
        BUCKETS => {
            if at / api::BUCKET == v::focus_key::<usize>() {
                found();
            }
        }
        RUNS => run(at),
        LIFE | LONG => {
            if timestamp(at).is_some() {
                run(at)
            }
        }
        LIFE_ECU => {
            if timestamp(at).is_some() && storage_ecu(at) == v::focus_key::<[u8; 4]>() {
                v::gset(MESSAGES, v::gget(MESSAGES) + 1);
                run(at)
            }
        }
        ECU_MESSAGES => {
            if storage_ecu(at) == v::focus_key::<[u8; 4]>() {
                v::gset(MESSAGES, v::gget(MESSAGES) + 1);
            }
        }
        _ => {}
    }
}

fn start(mode: usize) {
    v::assume(v::file().len() < 1 << 40);
    v::gset(CUR, 0);
    v::gset(COUNT, 0);
    v::gset(FIRST, 0);
    v::gset(LAST, 0);
    v::gset(MESSAGES, 0);
    v::gset(MODE, mode);
    v::gset(ENDED, 0);
    v::gset(OPEN, 0);
    v::gset(FEW, 0);
    v::gset(PRINTED, 0);
    v::gset(NUMBER, 0);
}
fn buffer() -> DltBuffer {
    match DltBuffer::read_file(v::file_name()) {
        Ok(b) => b,
        Err(_) => {
            v::assume(false);
            loop {}
        }
    }
}
fn counted(n: usize) {
    v::reach("counted");
    v::verify("all of the messages are looked at", v::gget(ENDED) == 1);
    v::verify("the number is that of the statistic", n == v::gget(COUNT));
}
fn at_focus(r: Option<&usize>) {
    v::verify("all of the messages are looked at", v::gget(ENDED) == 1);
    match r {
        Some(n) => {
            v::reach("counted");
            v::verify("the number at a key is that of the statistic", *n == v::gget(COUNT));
        }
        None => {
            v::reach("absent");
            v::verify("a key is absent only if the statistic is 0 there", v::gget(COUNT) == 0);
        }
    }
}
fn histogram(r: &BTreeMap<usize, usize>) {
    at_focus(r.get(&v::focus_key::<usize>()));
}
fn by_ecu(r: &BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)>, runs: bool) {
    v::verify("all of the messages are looked at", v::gget(ENDED) == 1);
    match r.get(&v::focus_key::<[u8; 4]>()) {
        Some((lives, messages)) => {
            v::reach("an ECU");
            v::verify("the messages of the ECU are counted", *messages == v::gget(MESSAGES));
            if runs {
                at_focus(lives.get(&v::focus_key::<u32>()));
            }
        }
        None => v::verify("an ECU is absent only if it has no messages", v::gget(MESSAGES) == 0),
    }
}

pub fn c24_count() {
    start(ALL);
    counted(api::count(v::file()));
}
pub fn c24_message_size() {
    start(SIZE);
    histogram(&api::histogram_message(buffer()));
}
pub fn c24_payload_size() {
    start(PAYLOAD);
    histogram(&api::histogram_payload(buffer()));
}
pub fn c24_message_type() {
    v::focus_key::<Info>();
    start(TYPE);
    let r = api::mstp_info_histogram(buffer());
    at_focus(r.get(&v::focus_key::<Info>()));
}
pub fn c24_hello_world() {
    start(HELLO);
    counted(api::count_hello_world(v::file()));
}
pub fn c24_hello_world_grep() {
    start(GREP);
    counted(api::count_hello_world_grepit(v::file()));
}
pub fn c24_hello_world_buckets() {
    start(BUCKETS);
    histogram(&api::histogram_hello_world(buffer()));
}
pub fn c24_timestamps() {
    start(RUNS);
    histogram(&api::continuous_timestamp_histogram(v::file()));
}
pub fn c24_lifecycles() {
    start(LIFE);
    histogram(&api::lifecycle_histogram(buffer()));
}
pub fn c24_long_lifecycles() {
    v::verify("half an hour is long", api::LONG == 30 * 60 * 10000);
    start(LONG);
    long(api::lifecycle_iter(v::file()));
}
pub fn c24_long_lifecycles_itertools() {
    start(LONG);
    long(api::lifecycle_itertools(v::file()));
}
pub fn hook_line(n: usize) {}
/// Long lifecycles are counted, and their number printed.
fn long(n: usize) {
    counted(n);
    if v::gget(PRINTED) == 1 {
        v::verify("aux: the number printed is that of the statistic", v::gget(NUMBER) == n);
    }
}
pub fn hook_printed__usize(i: usize, x: &usize) {
    if v::gget(MODE) == LONG {
        v::gset(PRINTED, 1);
        v::gset(NUMBER, *x);
    }
}
pub fn hook_printed__u32(i: usize, x: &u32) {
    if v::gget(MODE) == LONG {
        v::verify("aux: the number of seconds printed is that of a long lifecycle", *x * 10000 == api::LONG);
    }
}
// With four messages at most, for short examples of what goes wrong.
fn start_few(mode: usize) {
    start(mode);
    v::gset(FEW, 5);
}
pub fn c24_few_long_lifecycles() {
    start_few(LONG);
    long(api::lifecycle_iter(v::file()));
}
pub fn c24_few_long_lifecycles_itertools() {
    start_few(LONG);
    long(api::lifecycle_itertools(v::file()));
}
pub fn c24_few_hello_world() {
    start_few(HELLO);
    v::gset(FEW, 3);
    counted(api::count_hello_world(v::file()));
}
pub fn c24_few_timestamps() {
    start_few(RUNS);
    histogram(&api::continuous_timestamp_histogram(v::file()));
}
pub fn c24_few_lifecycles() {
    start_few(LIFE);
    histogram(&api::lifecycle_histogram(buffer()));
}
pub fn c24_lifecycles_by_ecu() {
    v::focus_key::<[u8; 4]>();
    // what happens to the reducer of another ECU
    let fork = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Fork<";
    v::beside_foreign("next", fork);
    v::beside_foreign("finalize", fork);
    start(LIFE_ECU);
    by_ecu(&api::lifecycle_splitit(buffer()), true);
}
pub fn c24_messages_by_ecu() {
    v::focus_key::<[u8; 4]>();
    let fork = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Fork<";
    v::beside_foreign("next", fork);
    v::beside_foreign("finalize", fork);
    // the histogram of the merged intervals is not looked at
    let split = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Split<";
    v::beside("next", split);
    v::beside("finalize", split);
    start(ECU_MESSAGES);
    by_ecu(&api::timestamp_splitit(v::file()), false);
}
