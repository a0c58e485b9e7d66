//! C10: encoding bags of cells.
//! ASSUMES: std's hash map replaced by a map of at most four keys under cfg(kani) in the encoder (verif::map); crc32c by any function of the bytes; reserved Vec capacity suffices
use crate::util::*;
use std::alloc::Allocator;
use std::hash::{BuildHasher, Hasher};
use std::mem::ManuallyDrop;
use tycho_types::boc::ser::BocHeader;
use tycho_types::cell::*;

/// A node of a cell tree, seen through the `CellImpl` trait.
pub struct Node {
    pub d1: u8,
    pub d2: u8,
    pub bytes: u8,
    pub data: [u8; 2],
    pub kids: [Option<&'static DynCell>; 2],
    pub hash: [u128; 2],
    pub depth: u16,
}
impl CellImpl for Node {
    fn untrack(self: CellInner<Self>) -> Cell {
        Cell::from(self)
    }
    fn descriptor(&self) -> CellDescriptor {
        CellDescriptor { d1: self.d1, d2: self.d2 }
    }
    fn data(&self) -> &[u8] {
        &self.data[..self.bytes as usize]
    }
    fn bit_len(&self) -> u16 {
        (self.d2 >> 1) as u16 * 8
    }
    fn reference(&self, i: u8) -> Option<&DynCell> {
        if i < 2 { self.kids[i as usize] } else { None }
    }
    fn reference_cloned(&self, _: u8) -> Option<Cell> {
        None
    }
    fn virtualize(&self) -> &DynCell {
        self
    }
    fn hash(&self, _: u8) -> &HashBytes {
        unsafe { &*(&raw const self.hash).cast::<HashBytes>() }
    }
    fn depth(&self, _: u8) -> u16 {
        self.depth
    }
    fn take_first_child(&mut self) -> Option<Cell> {
        None
    }
    fn replace_first_child(&mut self, parent: Cell) -> Result<Cell, Cell> {
        Err(parent)
    }
    fn take_next_child(&mut self) -> Option<Cell> {
        None
    }
}

/// Appends without growing.
pub fn vec_extend<T: Clone, A: Allocator>(v: &mut Vec<T, A>, s: &[T]) {
    assert!(v.capacity() - v.len() >= s.len(), "vec: growing is not modelled");
    let mut i = 0;
    while i < s.len() {
        unsafe {
            let n = v.len();
            v.as_mut_ptr().add(n).write(s[i].clone());
            v.set_len(n + 1);
        }
        i += 1;
    }
}
pub fn vec_reserve<T, A: Allocator>(_: &mut Vec<T, A>, _: usize) {}

#[derive(Default)]
pub struct NoHash;
impl BuildHasher for NoHash {
    type Hasher = NoHash;
    fn build_hasher(&self) -> NoHash {
        NoHash
    }
}
impl Hasher for NoHash {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

static mut CRC_AT: (usize, usize) = (0, 0);
static mut CRC: u32 = 0;
pub fn crc_of(d: &[u8]) -> u32 {
    unsafe {
        CRC_AT = (d.as_ptr() as usize, d.len());
        CRC
    }
}

fn bytes_to_fit(x: u64) -> usize {
    let mut n = 0;
    while n < 8 && x >> (8 * n) != 0 {
        n += 1;
    }
    n
}

//@ C10 quick complete | ser::BocHeader::compute_stats | any numbers of cells, references and bytes a bag can have, one root
#[kani::proof]
#[kani::stub(std::vec::Vec::push, vec_push1)]
#[kani::unwind(10)]
fn c10_stats() {
    let mut h = ManuallyDrop::new(BocHeader::<NoHash>::default());
    let crc: bool = kani::any();
    let plain: bool = kani::any();
    let (data, hashes, refs, cells): (u64, u64, u64, u32) = kani::any();
    kani::assume(cells > 0 && data <= cells as u64 * 128 && hashes <= cells as u64 * 136 && refs <= cells as u64 * 4);
    h.verif_set_counts(data, hashes, refs, cells);
    let h = ManuallyDrop::new(ManuallyDrop::into_inner(h).with_crc(crc).without_hashes(plain));
    let s = h.compute_stats();
    let r = bytes_to_fit(cells as u64);
    assert!(s.ref_size == r, "references have as many bytes as the number of cells");
    let total = data + if plain { 0 } else { hashes } + 2 * cells as u64 + r as u64 * refs;
    assert!(s.total_cells_size == total, "the cells take their data, two bytes and the references each");
    let o = bytes_to_fit(total);
    assert!(s.offset_size == o, "offsets have as many bytes as the size of the cells");
    assert!(s.total_size == 6 + 3 * r as u64 + o as u64 + total + if crc { 4 } else { 0 }, "no more than the parts");
    kani::cover!(r == 2 && o == 3);
}
/// Whatever is asked for (appending asserts that two are enough).
pub fn room_for_two<T>(_: usize) -> Vec<T> {
    let b = Box::<[std::mem::MaybeUninit<T>; 2]>::new([const { std::mem::MaybeUninit::uninit() }; 2]);
    unsafe { Vec::from_raw_parts(Box::into_raw(b) as *mut T, 0, 2) }
}
/// Allocates room for four.
pub fn vec_push1<T, A: Allocator>(v: &mut Vec<T, A>, x: T) {
    let n = v.len();
    if v.capacity() == 0 {
        v.reserve_exact(4);
    }
    assert!(n < v.capacity(), "vec: growing is not modelled");
    unsafe {
        v.as_mut_ptr().add(n).write(x);
        v.set_len(n + 1);
    }
}

/// Borrows a cell for as long as needed (cells of a proof live on its stack).
fn at(n: &Node) -> &'static Node {
    unsafe { &*(n as *const Node) }
}
/// A cell of `len` bytes (the last one maybe padded), identified by `id`.
fn node(id: u128, bytes: u8, refs: u8, stored: bool, depth: u16, kids: [Option<&'static DynCell>; 2]) -> Node {
    // flags and sizes are concrete: they decide the size of the bag
    let mask: u8 = if stored { 2 } else if bytes == 2 { 5 } else { 0 };
    let (exotic, padded) = (bytes == 2, bytes != 0);
    Node {
        d1: mask << 5 | (stored as u8) << 4 | (exotic as u8) << 3 | refs,
        d2: bytes * 2 - (padded && bytes > 0) as u8,
        bytes,
        data: kani::any(),
        kids,
        // one half tells the cells apart
        hash: if id & 1 == 0 { [id, 5] } else { [5, id] },
        depth,
    }
}

/// Checks the cell at `at` of `b` and returns its end.
fn cell_at(b: &[u8], at: usize, n: &Node, plain: bool, refs: [u8; 2]) -> usize {
    let stored = n.d1 & 16 != 0 && !plain;
    assert!(b[at] == if plain { n.d1 & !16 } else { n.d1 } && b[at + 1] == n.d2, "descriptor");
    let mut at = at + 2;
    if stored {
        // level 0 and the level of the mask
        let h: &[u8; 32] = unsafe { &*(&raw const n.hash).cast() };
        let k: usize = kani::any();
        kani::assume(k < 32);
        assert!(b[at + k] == h[k] && b[at + 32 + k] == h[k], "stored hashes");
        let d = n.depth.to_be_bytes();
        assert!(b[at + 64] == d[0] && b[at + 65] == d[1] && b[at + 66] == d[0] && b[at + 67] == d[1], "stored depths");
        at += 68;
    }
    let len = n.bytes as usize;
    let k: usize = kani::any();
    if k < len {
        assert!(b[at + k] == n.data[k], "data");
    }
    at += len;
    let mut i = 0;
    while i < (n.d1 & 7) as usize {
        assert!(b[at + i] == refs[i], "references by index");
        i += 1;
    }
    at + i
}

/// Checks a whole bag: the cells in order, with the indices of their children.
fn bag<const M: usize>(v: &Vec<u8>, crc: bool, plain: bool, roots: &[u8], cells: [(&Node, [u8; 2]); M]) {
    let b = v.as_slice();
    assert!(b[0] == 0xb5 && b[1] == 0xee && b[2] == 0x9c && b[3] == 0x72, "tag");
    assert!(b[4] == 1 | (crc as u8) << 6 && b[5] == 1, "flags and offset size");
    assert!(b[6] == M as u8 && b[7] == roots.len() as u8 && b[8] == 0, "numbers of cells, roots, absent cells");
    let mut at = 10;
    let mut i = 0;
    while i < roots.len() {
        assert!(b[at] == roots[i], "root indices");
        at += 1;
        i += 1;
    }
    let start = at;
    let mut i = 0;
    while i < M {
        at = cell_at(b, at, cells[i].0, plain, cells[i].1);
        i += 1;
    }
    assert!(b[9] as usize == at - start, "size of the cells");
    if crc {
        unsafe {
            assert!(CRC_AT.0 == b.as_ptr() as usize && CRC_AT.1 == at, "the checksum covers everything before it");
            let c = CRC.to_le_bytes();
            assert!(b[at] == c[0] && b[at + 1] == c[1] && b[at + 2] == c[2] && b[at + 3] == c[3], "checksum");
        }
        at += 4;
    }
    assert!(b.len() == at, "nothing else");
}

type H = ManuallyDrop<BocHeader<'static, NoHash>>;
/// Room for a bag where `Vec::with_capacity` is replaced.
fn room() -> ManuallyDrop<Vec<u8>> {
    let b = Box::<[std::mem::MaybeUninit<u8>; 128]>::new([const { std::mem::MaybeUninit::uninit() }; 128]);
    ManuallyDrop::new(unsafe { Vec::from_raw_parts(Box::into_raw(b) as *mut u8, 0, 128) })
}
fn out() -> ManuallyDrop<Vec<u8>> {
    ManuallyDrop::new(Vec::with_capacity(128))
}

macro_rules! ser {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(crc32c::crc32c, crc_of)]
        #[kani::stub(std::vec::Vec::push, vec_push1)]
        #[kani::stub(std::vec::Vec::extend_from_slice, vec_extend)]
        #[kani::stub(std::vec::Vec::reserve, vec_reserve)]
        $(#[$a])*
        fn $name() $body
    };
}
macro_rules! leaf {
    ($($name:ident $bytes:literal $stored:literal $crc:literal $plain:literal $unwind:literal;)*) => {$(
        ser! {
            #[kani::unwind($unwind)]
            fn $name() {
                unsafe { CRC = kani::any() };
                let a = node(2, $bytes, 0, $stored, 128, [None; 2]);
        let a = at(&a);
                let h: H = ManuallyDrop::new(BocHeader::with_root(a).with_crc($crc).without_hashes($plain));
                let mut v = out();
                h.encode(&mut v);
                bag(&v, $crc, $plain, &[0], [(a, [0; 2])]);
            }
        }
    )*};
}
//@ C10 quick bounded | ser::BocHeader::{with_root, encode} | one empty cell | c10_leaf0
//@ C10 quick bounded | ser::BocHeader::{with_root, with_crc, encode} | an exotic cell of 2 bytes, the last one partial, of level 3, with a checksum | c10_leaf2
//@ C10 quick bounded | ser::BocHeader::{with_root, encode} | one cell of a byte with stored hashes | c10_stored
//@ C10 quick bounded | ser::BocHeader::{with_root, without_hashes, encode} | one cell of a byte, its stored hashes left out | c10_left_out
leaf! {
    c10_leaf0 0 false false false 6;
    c10_leaf2 2 false true true 6;
    c10_stored 1 true false false 34;
    c10_left_out 1 true true true 6;
}
ser! {
    //@ C10 quick bounded | ser::BocHeader::encode (order and indices) | a cell with two different children | c10_pair
    #[kani::unwind(6)]
    fn c10_pair() {
        let a = node(2, 1, 0, false, 0, [None; 2]);
        let a = at(&a);
        let b = node(4, 2, 0, false, 0, [None; 2]);
        let b = at(&b);
        let r = node(3, 1, 2, false, 1, [Some(a), Some(b)]);
        let r = at(&r);
        let h: H = ManuallyDrop::new(BocHeader::with_root(r));
        let mut v = out();
        h.encode(&mut v);
        bag(&v, false, false, &[0], [(r, [2, 1]), (b, [0; 2]), (a, [0; 2])]);
    }
}
ser! {
    //@ C10 quick bounded | ser::BocHeader::encode (equal cells once) | a cell with two equal children | c10_twins
    #[kani::unwind(6)]
    fn c10_twins() {
        let a = node(2, 1, 0, false, 0, [None; 2]);
        let a = at(&a);
        let a2 = Node { ..*a };
        let r = node(3, 1, 2, false, 1, [Some(a), Some(at(&a2))]);
        let r = at(&r);
        let h: H = ManuallyDrop::new(BocHeader::with_root(r));
        let mut v = out();
        h.encode(&mut v);
        bag(&v, false, false, &[0], [(r, [1, 1]), (a, [0; 2])]);
    }
}
ser! {
    //@ C10 quick bounded | ser::BocHeader::encode (shared cells) | a cell with a child and a grandchild which is also its child | c10_shared
    #[kani::unwind(6)]
    fn c10_shared() {
        let a = node(2, 1, 0, false, 0, [None; 2]);
        let a = at(&a);
        let b = node(4, 0, 1, false, 1, [Some(a), None]);
        let b = at(&b);
        let r = node(3, 1, 2, false, 128, [Some(a), Some(b)]);
        let r = at(&r);
        let h: H = ManuallyDrop::new(BocHeader::with_root(r));
        let mut v = out();
        h.encode(&mut v);
        bag(&v, false, false, &[0], [(r, [2, 1]), (b, [2, 0]), (a, [0; 2])]);
    }
}
ser! {
    //@ C10 quick bounded | ser::BocHeader::encode (deep trees) | a cell claimed to be deeper than 128, with two different children | c10_deep
    #[kani::unwind(7)]
    #[kani::stub(std::vec::Vec::with_capacity, room_for_two)]
    fn c10_deep() {
        let mut v = room();
        let a = node(2, 1, 0, false, 0, [None; 2]);
        let a = at(&a);
        let b = node(4, 2, 0, false, 0, [None; 2]);
        let b = at(&b);
        let r = node(3, 1, 2, false, 129, [Some(a), Some(b)]);
        let r = at(&r);
        let h: H = ManuallyDrop::new(BocHeader::with_root(r));
        h.encode(&mut v);
        bag(&v, false, false, &[0], [(r, [2, 1]), (b, [0; 2]), (a, [0; 2])]);
    }
}
ser! {
    //@ C10 quick bounded | ser::BocHeader::encode (equal cells of deep trees once) | a cell claimed to be deeper than 128, with two equal children | c10_deep_twins
    #[kani::unwind(7)]
    #[kani::stub(std::vec::Vec::with_capacity, room_for_two)]
    fn c10_deep_twins() {
        let mut v = room();
        let a = node(2, 1, 0, false, 0, [None; 2]);
        let a2 = Node { ..a };
        let a = at(&a);
        let r = node(3, 1, 2, false, 1000, [Some(a), Some(at(&a2))]);
        let r = at(&r);
        let h: H = ManuallyDrop::new(BocHeader::with_root(r));
        h.encode(&mut v);
        bag(&v, false, false, &[0], [(r, [1, 1]), (a, [0; 2])]);
    }
}
macro_rules! roots {
    ($($name:ident $again:literal;)*) => {$(
        ser! {
            #[kani::unwind(6)]
            fn $name() {
                unsafe { CRC = kani::any() };
                let a = node(2, 1, 0, false, 0, [None; 2]);
        let a = at(&a);
                let r = node(3, 1, 1, false, 1, [Some(a), None]);
        let r = at(&r);
                let c = node(4, 2, 0, false, 0, [None; 2]);
        let c = at(&c);
                let mut h: H = ManuallyDrop::new(BocHeader::with_root(r).with_crc(true));
                let second: &'static DynCell = match $again { 0 => r, 1 => a, _ => c };
                h.add_root(second);
                let mut v = out();
                h.encode(&mut v);
                match $again {
                    0 => bag(&v, true, false, &[0, 0], [(r, [1, 0]), (a, [0; 2])]),
                    1 => bag(&v, true, false, &[0, 1], [(r, [1, 0]), (a, [0; 2])]),
                    _ => bag(&v, true, false, &[1, 0], [(c, [0; 2]), (r, [2, 0]), (a, [0; 2])]),
                }
            }
        }
    )*};
}
//@ C10 quick bounded | ser::BocHeader::{add_root, encode} | the same root twice | c10_root_again
//@ C10 quick bounded | ser::BocHeader::{add_root, encode} | a root and its child | c10_root_child
//@ C10 quick bounded | ser::BocHeader::{add_root, encode} | two unrelated roots | c10_root_other
roots! {
    c10_root_again 0;
    c10_root_child 1;
    c10_root_other 2;
}

// A checksum that depends on every byte and its place.
pub fn fold(d: &[u8]) -> u32 {
    fold_on(0, d)
}
pub fn fold_on(mut c: u32, d: &[u8]) -> u32 {
    let mut i = 0;
    while i < d.len() {
        c = c.rotate_left(3) ^ d[i] as u32;
        i += 1;
    }
    c
}
pub fn vec_reserve_some<T, A: Allocator>(v: &mut Vec<T, A>, _: usize) {
    if v.capacity() == 0 {
        v.reserve_exact(64);
    }
}
struct Sink {
    b: [u8; 64],
    n: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        unreachable!()
    }
    fn write_all(&mut self, d: &[u8]) -> std::io::Result<()> {
        let mut i = 0;
        while i < d.len() {
            self.b[self.n + i] = d[i];
            i += 1;
        }
        self.n += d.len();
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
macro_rules! writer {
    ($($name:ident $crc:literal $plain:literal;)*) => {$(
        #[kani::proof]
        #[kani::stub(crc32c::crc32c, fold)]
        #[kani::stub(crc32c::crc32c_append, fold_on)]
        #[kani::stub(std::vec::Vec::push, vec_push1)]
        #[kani::stub(std::vec::Vec::extend_from_slice, vec_extend)]
        #[kani::stub(std::vec::Vec::reserve, vec_reserve_some)]
        #[kani::unwind(34)]
        fn $name() {
            let a = node(2, 1, 0, false, 0, [None; 2]);
            let a = at(&a);
            let r = node(3, 2, 1, false, 1, [Some(a), None]);
            let r = at(&r);
            let h: H = ManuallyDrop::new(BocHeader::with_root(r).with_crc($crc).without_hashes($plain));
            let mut v = out();
            h.encode(&mut v);
            let mut w = Sink { b: [0; 64], n: 0 };
            assert!(h.encode_to_writer(&mut w).is_ok(), "writes");
            assert!(w.n == v.len(), "as many bytes");
            let k: usize = kani::any();
            kani::assume(k < w.n);
            assert!(w.b[k] == v[k], "the same bytes");
        }
    )*};
}
//@ C10 quick bounded | ser::BocHeader::{encode, encode_to_writer} | a cell and its child, with a checksum | c10_writer_crc
//@ C10 quick bounded | ser::BocHeader::{encode, encode_to_writer} | a cell and its child, no checksum | c10_writer
writer! {
    c10_writer_crc true false;
    c10_writer false true;
}
