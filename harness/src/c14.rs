//! Loading a file.
//!
//! `hook_open` is called when a file is opened, `hook_io_failed` when an operation of the operating system fails.
use crate::probe::*;
use crate::v;
use rapiddlt::dltbuffer::DltBuffer;

/// Has an operation failed?
const FAILED: usize = 32;

pub fn hook_io_failed() {
    v::gset(FAILED, 1);
}
pub fn hook_open(path: &[u8]) {
    v::verify("the file asked for is opened", v::same_bytes(path, v::file_name().as_bytes()));
}

fn loaded(r: Result<DltBuffer, std::io::Error>) {
    match r {
        Ok(b) => {
            v::reach("loaded");
            v::verify("the whole file", v::same_bytes(b.as_slice(), v::file()));
            v::verify("length", b.len() == v::file().len());
        }
        Err(_) => {
            v::reach("failed");
            v::verify("an error is one of the operating system", v::gget(FAILED) == 1);
        }
    }
}

pub fn c14_read() {
    v::gset(FAILED, 0);
    loaded(DltBuffer::read_file(v::file_name()));
}

pub fn c14_map() {
    v::gset(FAILED, 0);
    loaded(DltBuffer::mmap_file(v::file_name()));
}

const NUM: usize = 0;

pub fn summary_partition_from(bytes: &'static [u8], num: usize) -> Vec<&'static [u8]> {
    v::reach("partition");
    v::verify("all of the buffer is partitioned", v::same_bytes(bytes, v::file()));
    v::verify("into as many partitions as asked for", num == v::gget(NUM));
    let mut r = vec![];
    r.push(bytes);
    r
}

fn partitioned(b: DltBuffer) {
    let n = v::any_usize();
    v::gset(NUM, n);
    let p = b.partition::<Probe>(n);
    v::verify("the partitions are handed on", p.len() == 1);
    if v::focus_index() == 0 {
        v::verify("the partitions are handed on", v::same_bytes(p[0], v::file()));
    }
}

pub fn c14_partition_read() {
    if let Ok(b) = DltBuffer::read_file(v::file_name()) {
        partitioned(b);
    }
}

pub fn c14_partition_mapped() {
    if let Ok(b) = DltBuffer::mmap_file(v::file_name()) {
        partitioned(b);
    }
}
