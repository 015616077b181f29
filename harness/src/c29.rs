//! The periods of split_timestamp are the unions of overlapping runs.
//!
//! The iterator over the messages of the file is replaced by its contract (C06). The runs of the messages of an
//! arbitrary but fixed ECU are followed beside the program, and the periods stored and counted are compared with them.
use crate::v;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::DltStorageEntry;
use std::collections::BTreeMap;
use std::ops::ControlFlow;

type Entry = DltStorageEntry<'static>;
type Period = (Entry, Entry);

/// For what the program does in another way.
pub mod fallback {
    use rapiddlt::dlt_v1::DltStorageEntry;
    pub fn merge_overlapping_timestamps<'a>(a: &(DltStorageEntry<'a>, DltStorageEntry<'a>), b: &(DltStorageEntry<'a>, DltStorageEntry<'a>)) -> Option<(DltStorageEntry<'a>, DltStorageEntry<'a>)> {
        crate::v::unsupported();
        crate::v::assume(false);
        None
    }
}
mod program {
    #[allow(unused_imports)]
    use crate::c29::fallback::*;
    include!("/repo/ripdlt/src/main.rs");
    pub mod api {
        use super::*;
        pub fn union<'a>(a: &(DltStorageEntry<'a>, DltStorageEntry<'a>), b: &(DltStorageEntry<'a>, DltStorageEntry<'a>)) -> Option<(DltStorageEntry<'a>, DltStorageEntry<'a>)> {
            super::merge_overlapping_timestamps(a, b)
        }
        pub fn periods(b: &[u8]) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
            super::timestamp_splitit(b)
        }
    }
}
use program::api;

/// End of the last message.
const CUR: usize = 0;
/// The positions of the first and the last message of the run that ended last.
const FIRST: usize = 1;
const LAST: usize = 2;
/// The positions of the first and the last message of the current run.
const BEGUN: usize = 3;
const NOW: usize = 4;
/// Runs that have ended, and periods stored.
const RUNS: usize = 5;
const STORED: usize = 6;
/// The periods given out whose duration is the focus.
const COUNT: usize = 7;
/// The bounds of the period stored at the focus key.
const START: usize = 8;
const END: usize = 9;
/// At most as many are to be given out.
const LEFT: usize = 10;
/// The key of the period stored last.
const KEY: usize = 11;
/// Have all the messages been given out?
const ENDED: usize = 32;
/// Is there a current run?
const OPEN: usize = 33;
/// Has a period been stored at the focus key?
const KNOWN: usize = 34;
/// Has a period been given out?
const GIVEN: usize = 35;
/// Has one been stored?
const ANY: usize = 36;
/// Has the period given out last the duration looked at?
const HIT: usize = 37;
/// Are the runs followed?
const FOLLOWED: usize = 38;
/// Messages given out where the runs are not followed.
const MESSAGES: usize = 39;

pub fn summary_next(it: &mut ReadFallbackIterator<'static, Entry>) -> Option<(usize, Entry)> {
    let file = v::file();
    if v::gget(ENDED) == 0 && v::any_bool() {
        let at = v::any_usize();
        v::assume(at >= v::gget(CUR) && at <= file.len());
        if let Some((n, e)) = Entry::try_read(&file[at..]) {
            v::gset(CUR, at + n);
            if v::gget(FOLLOWED) == 0 {
                // three messages of one ECU are enough for a period that is extended to another
                v::assume(v::gget(MESSAGES) < 3);
                v::gset(MESSAGES, v::gget(MESSAGES) + 1);
                v::assume(e.storage_header.ecu == v::focus_key::<[u8; 4]>());
            }
            if v::gget(FOLLOWED) == 1 && e.storage_header.ecu == v::focus_key::<[u8; 4]>() {
                item(at);
            }
            return Some((at, e));
        }
        v::assume(false);
    }
    if v::gget(ENDED) == 0 {
        v::gset(ENDED, 1);
        if v::gget(FOLLOWED) == 1 {
            close();
        }
    }
    None
}
fn secs(e: &Entry) -> usize {
    e.storage_header.secs.get() as usize
}
fn secs_at(at: usize) -> usize {
    let f = v::file();
    u32::from_le_bytes([f[at + 4], f[at + 5], f[at + 6], f[at + 7]]) as usize
}
fn item(at: usize) {
    if v::gget(OPEN) == 1 && secs_at(at) >= secs_at(v::gget(NOW)) {
        v::gset(NOW, at);
        return;
    }
    close();
    v::gset(OPEN, 1);
    v::gset(BEGUN, at);
    v::gset(NOW, at);
}
fn close() {
    if v::gget(OPEN) == 1 {
        v::gset(OPEN, 0);
        v::assume(v::gget(RUNS) < 1 << 40);
        v::gset(RUNS, v::gget(RUNS) + 1);
        v::gset(FIRST, v::gget(BEGUN));
        v::gset(LAST, v::gget(NOW));
    }
}
/// What merging does with the runs is replaced: it gives out any periods (C18, and the roots below).
pub fn beside_adapt(p: Period) -> ControlFlow<(), Option<Period>> {
    v::reach("a run");
    v::assume(v::gget(STORED) < 1 << 40);
    v::gset(STORED, v::gget(STORED) + 1);
    v::verify("a period begins for each run that has ended", v::gget(STORED) == v::gget(RUNS));
    v::verify("a period begins with the first message of the run", v::start_of(header(&p.0)) == v::gget(FIRST));
    v::verify("a period ends with the last message of the run", v::start_of(header(&p.1)) == v::gget(LAST));
    v::gset(ANY, 1);
    ControlFlow::Continue(None)
}
pub fn beside_finalize() -> ControlFlow<(), Option<Period>> {
    if v::gget(LEFT) > 0 && v::any_bool() {
        v::gset(LEFT, v::gget(LEFT) - 1);
        let p = period();
        v::reach("given out");
        let duration = v::any_u32();
        v::assume(p.1.storage_header.secs.get() - p.0.storage_header.secs.get() == duration);
        v::gset(HIT, 0);
        if duration == v::focus_key::<u32>() {
            v::gset(HIT, 1);
            v::assume(v::gget(COUNT) < 1 << 40);
            v::gset(COUNT, v::gget(COUNT) + 1);
        }
        return ControlFlow::Continue(Some(p));
    }
    v::gset(HIT, 0);
    v::gset(GIVEN, 1);
    ControlFlow::Break(())
}
fn header(e: &Entry) -> &[u8] {
    use zerocopy::AsBytes;
    e.storage_header.as_bytes()
}
fn start() {
    v::focus_key::<u32>();
    v::focus_key::<[u8; 4]>();
    // what happens to the reducer of another ECU
    let fork = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Fork<";
    v::beside_foreign("next", fork);
    v::beside_foreign("finalize", fork);
    v::assume(v::file().len() < 1 << 40);
    let mut i = 0;
    while i < 13 {
        v::gset(i, 0);
        i += 1;
    }
    let left = v::any_usize();
    v::assume(left < 1 << 40);
    v::gset(LEFT, left);
    v::gset(ENDED, 0);
    v::gset(OPEN, 0);
    v::gset(KNOWN, 0);
    v::gset(GIVEN, 0);
    v::gset(ANY, 0);
    v::gset(HIT, 0);
    v::gset(FOLLOWED, 1);
    v::gset(MESSAGES, 0);
}
pub fn c29_periods() {
    let merge = "matchit::generator::groupby::Merge<";
    v::beside("adapt", merge);
    v::beside("finalize", merge);
    start();
    let r = api::periods(v::file());
    v::verify("all of the messages are looked at", v::gget(ENDED) == 1);
    if let Some((durations, n)) = r.get(&v::focus_key::<[u8; 4]>()) {
        if v::gget(ANY) == 0 && v::gget(GIVEN) == 0 {
            // done in another way
            v::unsupported();
        }
        v::reach("an ECU");
        v::verify("a period has begun for every run", v::gget(STORED) == v::gget(RUNS));
        v::verify("all of the periods are looked at", v::gget(GIVEN) == 1);
        match durations.get(&v::focus_key::<u32>()) {
            Some(k) => v::verify("the number at a duration is that of the periods", *k == v::gget(COUNT)),
            None => v::verify("a duration is absent only if no period has it", v::gget(COUNT) == 0),
        }
    }
}
/// Any two periods stored under one key have the same bounds: a period is lost only for an equal one.
pub fn hook_map_insert(key: (u32, u32), p: Period) {
    if v::gget(FOLLOWED) == 1 {
        return;
    }
    let (a, b) = (secs(&p.0), secs(&p.1));
    v::verify("a period ends when it begins or later", a <= b);
    if v::gget(KNOWN) == 1 && v::gget(KEY) == key.0 as usize && v::gget(KEY + 1) == key.1 as usize {
        v::reach("stored again");
        v::verify("a period replaces only one with the same bounds", a == v::gget(START) && b == v::gget(END));
    }
    v::gset(KNOWN, 1);
    v::gset(KEY, key.0 as usize);
    v::gset(KEY + 1, key.1 as usize);
    v::gset(START, a);
    v::gset(END, b);
}
/// What grouping does with the messages is replaced: it gives out any periods (C17).
pub fn beside_adapt__message(e: Entry) -> ControlFlow<(), Option<Period>> {
    if v::any_bool() {
        return ControlFlow::Continue(Some(period()));
    }
    ControlFlow::Continue(None)
}
pub fn c29_bounds() {
    let grouping = "matchit::generator::groupby::GroupBy<";
    v::beside("adapt", grouping);
    v::beside("finalize", grouping);
    // the durations are not looked at
    let split = "matchit::generator::reducer::Reducer<matchit::generator::reducer::Split<";
    v::beside("finalize", split);
    start();
    v::gset(FOLLOWED, 0);
    api::periods(v::file());
    v::reach("ended");
}
fn entry() -> Entry {
    let file = v::file();
    let at = v::any_usize();
    v::assume(at <= file.len());
    match Entry::try_read(&file[at..]) {
        Some((_, e)) => e,
        None => {
            v::assume(false);
            loop {}
        }
    }
}
fn period() -> Period {
    let p = (entry(), entry());
    v::assume(secs(&p.0) <= secs(&p.1));
    p
}
pub fn c29_union() {
    v::assume(v::file().len() < 1 << 40);
    let a = period();
    let b = period();
    let (a0, a1, b0, b1) = (secs(&a.0), secs(&a.1), secs(&b.0), secs(&b.1));
    match api::union(&a, &b) {
        Some(c) => {
            v::reach("one period");
            v::verify("only periods that have a second in common are merged", a0 <= b1 && b0 <= a1);
            let (c0, c1) = (secs(&c.0), secs(&c.1));
            v::verify("the union begins with the earlier one", c0 == if a0 < b0 { a0 } else { b0 });
            v::verify("the union ends with the later one", c1 == if a1 > b1 { a1 } else { b1 });
        }
        None => {
            v::reach("two periods");
            v::verify("periods that have a second in common are merged", a0 > b1 || b0 > a1);
        }
    }
}
