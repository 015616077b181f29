//! ripdlt does not crash on the content of a file.
//!
//! The iterators over the messages of the file are replaced by their contracts (C06, C09): arbitrary messages, one
//! behind the other. The arguments are good ones and the file can be read.
use crate::v;
use matchit::searchable::grepit::GrepIterator;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::{DltEntry, DltMessageType, DltStorageEntry, MessageType};

mod program {
    include!("/repo/ripdlt/src/main.rs");
    pub fn run() {
        main()
    }
}

/// End of the last message.
const CUR: usize = 0;
/// Have all the messages been given out?
const ENDED: usize = 33;
const TIMESTAMP: usize = 20;
const ECU: usize = 21;

type Entry = DltStorageEntry<'static>;

pub fn hook_io_failed() {
    v::assume(false);
}
pub fn summary_next(it: &mut ReadFallbackIterator<'static, Entry>) -> Option<(usize, Entry)> {
    message()
}
pub fn summary_next__grep(it: &mut GrepIterator<'static, Entry>) -> Option<(usize, Entry)> {
    message()
}
fn message() -> Option<(usize, Entry)> {
    let file = v::file();
    if v::gget(ENDED) == 0 && v::any_bool() {
        let at = v::any_usize();
        v::assume(at >= v::gget(CUR) && at <= file.len());
        if let Some((n, e)) = Entry::try_read(&file[at..]) {
            v::gset(CUR, at + n);
            return Some((at, e));
        }
        v::assume(false);
    }
    v::gset(ENDED, 1);
    None
}
fn part(t: usize) -> Option<u32> {
    if t == 0 {
        return None;
    }
    v::assume(t <= 1 << 32);
    Some((t - 1) as u32)
}
/// The parts of a message are where its flags say (C03), and reading them does not fail (C01).
pub fn summary_timestamp(e: &DltEntry<'static>) -> Option<u32> {
    part(v::fun(TIMESTAMP, v::start_of(e.tail)))
}
pub fn summary_ecu_id(e: &DltEntry<'static>) -> Option<u32> {
    part(v::fun(ECU, v::start_of(e.tail)))
}
type Info = (bool, Option<DltMessageType>);
/// The type of a message (C04). It is only ever a key, and which one is of no concern.
pub fn summary_info(m: &MessageType) -> Info {
    (v::any_bool(), None)
}
fn run(test: &str) {
    v::assume(v::file().len() < 1 << 40);
    v::assume(v::arg_count() >= 4);
    v::assume(v::arg(1) == "mmap" || v::arg(1) == "read");
    v::assume(v::arg(2) == test);
    v::gset(CUR, 0);
    v::gset(ENDED, 0);
    program::run();
    v::reach("the program ends");
}

fn by_ecu() {
    v::focus_key::<[u8; 4]>();
    let fork = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Fork<";
    v::beside_foreign("next", fork);
    v::beside_foreign("finalize", fork);
    let split = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Split<";
    v::beside("next", split);
    v::beside("finalize", split);
}

pub fn c22_count() {
    run("count");
}
pub fn c22_iter() {
    run("iter");
}
pub fn c22_itertools() {
    run("itertools");
}
pub fn c22_histogram_lifecycles() {
    run("histogram_lifecycles");
}
pub fn c22_split_lifecycles() {
    v::focus_key::<[u8; 4]>();
    // what happens to the reducer of another ECU
    let fork = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Fork<";
    v::beside_foreign("next", fork);
    v::beside_foreign("finalize", fork);
    run("split_lifecycles");
}
pub fn c22_histogram_timestamp() {
    run("histogram_timestamp");
}
pub fn c22_split_timestamp() {
    by_ecu();
    run("split_timestamp");
}
pub fn c22_histogram_message_type() {
    run("histogram_message_type");
}
pub fn c22_histogram_message_size() {
    run("histogram_message_size");
}
pub fn c22_histogram_payload_size() {
    run("histogram_payload_size");
}
pub fn c22_histogram_hello_world() {
    run("histogram_hello_world");
}
pub fn c22_count_hello_world() {
    run("count_hello_world");
}
pub fn c22_count_hello_world_raw() {
    run("count_hello_world_raw");
}
pub fn c22_count_hello_world_grepit() {
    run("count_hello_world_grepit");
}
