//! Analysis intrinsics. The bodies are never looked at by the analyser (and never run).
#![allow(unused_variables)]

/// Obligation: `b` holds here.
#[inline(never)]
pub fn verify(label: &str, b: bool) {}
/// Coverage: this point is reachable.
#[inline(never)]
pub fn reach(label: &str) {}
/// Obligation: this point is not reachable.
#[inline(never)]
pub fn unreachable(label: &str) -> ! {
    loop {}
}
#[inline(never)]
pub fn assume(b: bool) {}
#[inline(never)]
pub fn any_usize() -> usize {
    0
}
#[inline(never)]
pub fn any_u64() -> u64 {
    0
}
#[inline(never)]
pub fn any_u32() -> u32 {
    0
}
#[inline(never)]
pub fn any_i32() -> i32 {
    0
}
#[inline(never)]
pub fn any_u16() -> u16 {
    0
}
#[inline(never)]
pub fn any_u8() -> u8 {
    0
}
#[inline(never)]
pub fn any_bool() -> bool {
    true
}
/// An arbitrary input of arbitrary length.
#[inline(never)]
pub fn any_bytes() -> &'static [u8] {
    &[]
}
/// Does a well-formed item start at the beginning of this slice? (uninterpreted)
#[inline(never)]
pub fn valid(bytes: &[u8]) -> bool {
    true
}
/// Its length. (uninterpreted)
#[inline(never)]
pub fn length(bytes: &[u8]) -> usize {
    0
}
/// Is it established that `marker` occurs at no position in `[a, b)` of `bytes`?
#[inline(never)]
pub fn no_marker(bytes: &[u8], marker: &[u8], a: usize, b: usize) -> bool {
    true
}
/// Is it established that no well-formed item starts in `[a, b)`?
#[inline(never)]
pub fn no_item(bytes: &[u8], marker: &[u8], a: usize, b: usize) -> bool {
    true
}
/// Do the slices designate the same region of the same buffer?
#[inline(never)]
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    true
}
/// Position of the slice in the buffer it was taken from.
#[inline(never)]
pub fn start_of(a: &[u8]) -> usize {
    0
}
#[inline(never)]
pub fn fun(f: usize, x: usize) -> usize {
    0
}
#[inline(never)]
pub fn rel(f: usize, x: usize, y: usize) -> bool {
    true
}
/// What methods of that name of types whose name begins that way do is beside the point: they change only what they
/// are given, and their result is arbitrary.
#[inline(never)]
pub fn beside(method: &str, of: &str) {}
/// The same, once a value at a key that is not the focus has been looked at (see coll.rs).
#[inline(never)]
pub fn beside_foreign(method: &str, of: &str) {}
/// Ghost cells.
#[inline(never)]
pub fn gset(i: usize, x: usize) {}
#[inline(never)]
pub fn gget(i: usize) -> usize {
    0
}
/// Debugging aid.
#[inline(never)]
pub fn show<T>(x: T) {}
/// The position in a vector whose element is known (any other element is arbitrary). It is itself arbitrary.
#[inline(never)]
pub fn focus_index() -> usize {
    0
}
/// The key of maps whose value is known (any other value is arbitrary). It is itself arbitrary.
#[inline(never)]
pub fn focus_key<T>() -> T {
    loop {}
}
/// Is it the focus key?
#[inline(never)]
pub fn is_focus_key<T>(x: &T) -> bool {
    loop {}
}
/// Any value.
#[inline(never)]
pub fn arbitrary<T>() -> T {
    loop {}
}
/// An arbitrary string.
#[inline(never)]
pub fn any_str() -> &'static str {
    ""
}
/// The content of the file (there is one).
#[inline(never)]
pub fn file() -> &'static [u8] {
    &[]
}
/// Its name.
#[inline(never)]
pub fn file_name() -> &'static str {
    ""
}
/// Argument of the command line.
#[inline(never)]
pub fn arg(i: usize) -> &'static str {
    ""
}
/// The number the string stands for, if it is one of the type's.
#[inline(never)]
pub fn parsed<T>(s: &str) -> Option<T> {
    None
}
/// Identity of the buffer the slice is taken from.
#[inline(never)]
pub fn buffer_of(a: &[u8]) -> usize {
    0
}
/// Length of the buffer the slice is taken from.
#[inline(never)]
pub fn buffer_len(a: &[u8]) -> usize {
    0
}
/// Nothing that follows can be judged.
#[inline(never)]
pub fn unsupported() {}
/// The number of arguments of the command line (the name of the program included).
#[inline(never)]
pub fn arg_count() -> usize {
    1
}
