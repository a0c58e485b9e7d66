//! C07: what a cell's hashes, depths and levels are made of.
use crate::sha::{self, Sha};
use crate::util::*;
use std::sync::Arc;
use core::mem::MaybeUninit;
use tycho_types::cell::cell_impl_verif::{ordinary as ordinary_cell, pruned};
use tycho_types::cell::*;
use tycho_types::error::Error;

/// Stands for the virtualized child.
static VIRTUAL: Child = Child { d1: 0, hashes: [[0; 2]; 4], depths: [0; 4] };

/// A child: any cell, seen only through its descriptor, hashes and depths.
#[derive(Clone, Copy)]
pub struct Child {
    pub d1: u8,
    pub hashes: [[u128; 2]; 4],
    pub depths: [u16; 4],
}
fn lv(level: u8) -> usize {
    if level > 3 { 3 } else { level as usize }
}
impl CellImpl for Child {
    fn untrack(self: CellInner<Self>) -> Cell {
        Cell::from(self)
    }
    fn descriptor(&self) -> CellDescriptor {
        CellDescriptor { d1: self.d1, d2: 0 }
    }
    fn data(&self) -> &[u8] {
        &[]
    }
    fn bit_len(&self) -> u16 {
        0
    }
    fn reference(&self, _: u8) -> Option<&DynCell> {
        None
    }
    fn reference_cloned(&self, _: u8) -> Option<Cell> {
        None
    }
    fn virtualize(&self) -> &DynCell {
        &VIRTUAL
    }
    fn hash(&self, level: u8) -> &HashBytes {
        unsafe { &*(&raw const self.hashes[lv(level)]).cast::<HashBytes>() }
    }
    fn depth(&self, level: u8) -> u16 {
        self.depths[lv(level)]
    }
    fn take_first_child(&mut self) -> Option<Cell> {
        None
    }
    fn replace_first_child(&mut self, parent: Cell) -> Result<Cell, Cell> {
        Err(parent)
    }
    fn take_next_child(&mut self) -> Option<Cell> {
        None
    }
}
pub fn words(h: &[u8; 32]) -> (u128, u128) {
    let w: [u128; 2] = unsafe { core::mem::transmute(*h) };
    (w[0], w[1])
}
pub fn any_child() -> Child {
    let h = || [kani::any::<u128>(), kani::any::<u128>()];
    Child { d1: kani::any(), hashes: [h(), h(), h(), h()], depths: [kani::any(), kani::any(), kani::any(), kani::any()] }
}

/// What a cell made from `bits` bits of `d`, `n` children with the level masks `or` is.
pub struct Spec {
    pub mask: u8,
    pub pruned: bool,
    pub merkle: bool,
}
/// `None`: not a valid cell.
pub fn spec(bits: u16, d: &[u8; 128], exotic: bool, or: u8, n: usize) -> Option<Spec> {
    if !exotic {
        return Some(Spec { mask: or, pruned: false, merkle: false });
    }
    if bits < 8 {
        return None;
    }
    match d[0] {
        1 => {
            let m = d[1];
            let level = (m & 1) + (m >> 1 & 1) + (m >> 2 & 1);
            if m == 0 || m > 7 || n != 0 || bits != 16 + level as u16 * 272 {
                return None;
            }
            Some(Spec { mask: m, pruned: true, merkle: false })
        }
        2 if bits == 8 + 256 && n == 0 => Some(Spec { mask: 0, pruned: false, merkle: false }),
        3 if bits == 8 + 256 + 16 && n == 1 => Some(Spec { mask: or >> 1, pruned: false, merkle: true }),
        4 if bits == 8 + 2 * (256 + 16) && n == 2 => Some(Spec { mask: or >> 1, pruned: false, merkle: true }),
        _ => None,
    }
}

/// Returns whether the cell was accepted.
fn check<const N: usize>(exotic: bool, ty: u8) -> bool {
    let kids: [Child; N] = std::array::from_fn(|_| any_child());
    let n = N;
    let data: [u8; 128] = kani::any();
    let bits: u16 = kani::any();
    kani::assume(bits <= 1023);
    kani::assume(!exotic || ty == 0 || data[0] == ty);
    // no known type with this number of children
    kani::assume(!exotic || ty != 0 || !match data[0] { 1 | 2 => n == 0, 3 => n == 1, 4 => n == 2, _ => false });
    let (j, k): (usize, usize) = kani::any();
    kani::assume(j < 4 && k < 2 + 128 + 4 * 34);
    Sha::observe(j, k);
    let mut or = 0;
    let mut refs = tycho_types::util::ArrayVec::new();
    let mut i = 0;
    while i < n {
        or |= kids[i].d1 >> 5;
        unsafe { refs.push(Cell::from(Arc::new(kids[i]))) };
        i += 1;
    }
    let mask: u8 = kani::any();
    let stored: bool = kani::any();
    kani::assume(mask < 8);
    let d1 = mask << 5 | (stored as u8) << 4 | (exotic as u8) << 3 | n as u8;
    let d2 = (bits / 8) as u8 + ((bits + 7) / 8) as u8;
    let p = std::mem::ManuallyDrop::new(CellParts {
        bit_len: bits,
        descriptor: CellDescriptor { d1, d2 },
        children_mask: LevelMask::new(or),
        references: refs,
        data: &data[..((bits + 7) / 8) as usize],
    });
    let h = p.compute_hashes();
    let sp = match spec(bits, &data, exotic, or, n) {
        Some(sp) if sp.mask == mask => sp,
        _ => {
            assert!(matches!(h, Err(Error::InvalidCell)), "malformed cells are refused");
            std::mem::forget(h);
            return false;
        }
    };
    // significant levels
    let mut levels = [0u8; 4];
    let mut cnt = 1;
    let mut l = 1;
    while l < 4 {
        if !sp.pruned && sp.mask >> (l - 1) & 1 == 1 {
            levels[cnt] = l;
            cnt += 1;
        }
        l += 1;
    }
    let off = sp.merkle as u8;
    // depth overflow at any significant level
    let mut deep = false;
    let mut a = 0;
    while a < 4 {
        let mut i = 0;
        while i < n {
            if a < cnt && kids[i].depths[lv(levels[a] + off)] == u16::MAX {
                deep = true;
            }
            i += 1;
        }
        a += 1;
    }
    if deep {
        assert!(matches!(h, Err(Error::DepthOverflow)), "cells deeper than 65535 are refused");
        std::mem::forget(h);
        return false;
    }
    assert!(h.is_ok(), "well-formed cells are accepted");
    let h = h.unwrap();
    assert!(h.len() == cnt && Sha::count() == cnt, "one hash per significant level");
    if j < cnt {
        let level = levels[j];
        let at = lv(level + off);
        assert!(words(&h[j].0.0) == words(&Sha::out(j)), "the hashes are in order of their levels");
        let mut depth = 0u16;
        let mut i = 0;
        while i < n {
            if kids[i].depths[at] + 1 > depth {
                depth = kids[i].depths[at] + 1;
            }
            i += 1;
        }
        assert!(h[j].1 == depth, "depth is one more than the deepest child");
        let body = if j == 0 { ((bits + 7) / 8) as usize } else { 32 };
        assert!(Sha::len(j) == 2 + body + n * 34, "exactly descriptor, body, depths and hashes are hashed");
        if k < Sha::len(j) {
            let m = if sp.pruned { sp.mask } else { ((1u16 << level) - 1) as u8 };
            let want = if k == 0 {
                m << 5 | (exotic as u8) << 3 | n as u8
            } else if k == 1 {
                d2
            } else if k < 2 + body {
                if j > 0 { Sha::out(j - 1)[k - 2] } else { data[k - 2] }
            } else if k < 2 + body + 2 * n {
                let x = k - 2 - body;
                let d = kids[x / 2].depths[at];
                if x % 2 == 0 { (d >> 8) as u8 } else { d as u8 }
            } else {
                let x = k - 2 - body - 2 * n;
                kids[x / 32].hashes[at][x % 32 / 16].to_ne_bytes()[x % 16]
            };
            assert!(Sha::seen() == Some(want), "the hashed bytes");
        }
    }
    std::mem::forget(h);
    true
}

macro_rules! hashes {
    (@ 0 $ok:ident) => { assert!(!$ok) };
    (@ $c:tt $ok:ident) => { kani::cover!($ok, "accepted") };
    ($($name:ident $n:literal $exotic:literal $ty:literal $c:tt;)*) => {$(
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(std::vec::Vec::with_capacity, vec_with_capacity)]
        #[kani::stub(std::vec::Vec::push, vec_push)]
        #[kani::stub(tycho_types::verif::sha2::feed, sha::feed)]
        #[kani::stub(tycho_types::verif::sha2::result, sha::result)]
        fn $name() {
            let ok = check::<$n>($exotic, $ty);
            kani::cover!(!ok, "refused");
            hashes!(@ $c ok);
        }
    )*};
}
//@ C07 quick complete | CellParts::compute_hashes | all cells: no children; any data, level mask and child hashes, depths, masks | c07_ordinary0
//@ C07 quick complete | CellParts::compute_hashes | all cells: 1 child; any data, level mask and child hashes, depths, masks | c07_ordinary1
//@ C07 quick complete | CellParts::compute_hashes | all cells: 2 children; any data, level mask and child hashes, depths, masks | c07_ordinary2
//@ C07 quick complete | CellParts::compute_hashes | all cells: 3 children; any data, level mask and child hashes, depths, masks | c07_ordinary3
//@ C07 quick complete | CellParts::compute_hashes | all cells: 4 children; any data, level mask and child hashes, depths, masks | c07_ordinary4
//@ C07 quick complete | CellParts::compute_hashes | all cells: pruned branches; any data, level mask and child hashes, depths, masks | c07_pruned
//@ C07 quick complete | CellParts::compute_hashes | all cells: library references; any data, level mask and child hashes, depths, masks | c07_library
//@ C07 quick complete | CellParts::compute_hashes | all cells: Merkle proofs; any data, level mask and child hashes, depths, masks | c07_proof
//@ C07 quick complete | CellParts::compute_hashes | all cells: Merkle updates; any data, level mask and child hashes, depths, masks | c07_update
//@ C07 quick complete | CellParts::compute_hashes | all cells: exotic cells of no known kind, no children; any data, level mask and child hashes, depths, masks | c07_unknown0
//@ C07 quick complete | CellParts::compute_hashes | all cells: exotic cells of no known kind, 1 child; any data, level mask and child hashes, depths, masks | c07_unknown1
//@ C07 quick complete | CellParts::compute_hashes | all cells: exotic cells of no known kind, 2 children; any data, level mask and child hashes, depths, masks | c07_unknown2
//@ C07 quick complete | CellParts::compute_hashes | all cells: exotic cells with 3 children; any data, level mask and child hashes, depths, masks | c07_unknown3
//@ C07 quick complete | CellParts::compute_hashes | all cells: exotic cells with 4 children; any data, level mask and child hashes, depths, masks | c07_unknown4
hashes! {
    c07_ordinary0 0 false 0 1;
    c07_ordinary1 1 false 0 1;
    c07_ordinary2 2 false 0 1;
    c07_ordinary3 3 false 0 1;
    c07_ordinary4 4 false 0 1;
    c07_pruned 0 true 1 1;
    c07_library 0 true 2 1;
    c07_proof 1 true 3 1;
    c07_update 2 true 4 1;
    c07_unknown0 0 true 0 0;
    c07_unknown1 1 true 0 0;
    c07_unknown2 2 true 0 0;
    c07_unknown3 3 true 0 0;
    c07_unknown4 4 true 0 0;
}

static mut KIDS: [Child; 4] = [Child { d1: 0, hashes: [[0; 2]; 4], depths: [0; 4] }; 4];
static mut DATA: [u8; 128] = [0; 128];
static mut BITS: u16 = 0;
static mut NREF: usize = 0;
static mut EXOTIC: bool = false;

/// Checks the parts a builder hands over.
struct Parts;
impl CellContext for Parts {
    fn finalize_cell(&self, p: CellParts<'_>) -> Result<Cell, Error> {
        let (n, bits, exotic) = unsafe { (NREF, BITS, EXOTIC) };
        let mut or = 0;
        let mut i = 0;
        while i < 4 {
            if i < n {
                or |= unsafe { KIDS[i].d1 } >> 5;
            }
            i += 1;
        }
        let ty = if bits >= 8 { unsafe { DATA[0] } } else { 0 };
        let mask = match ty {
            1 if exotic => unsafe { DATA[1] & 7 },
            2 if exotic => 0,
            3 | 4 if exotic => or >> 1,
            _ => or,
        };
        assert!(p.bit_len == bits && p.data.len() == ((bits + 7) / 8) as usize);
        assert!(p.descriptor.d1 == mask << 5 | (exotic as u8) << 3 | n as u8, "d1");
        assert!(p.descriptor.d2 == (bits / 8) as u8 + ((bits + 7) / 8) as u8, "d2");
        assert!(p.children_mask.to_byte() == or, "mask of the children");
        assert!(p.references.len() == n);
        let i: usize = kani::any();
        if i < n {
            let c = p.references.as_ref()[i].as_ref();
            assert!(c.depth(0) == unsafe { KIDS[i].depths[0] }, "children in order");
        }
        let k: usize = kani::any();
        if k < p.data.len() {
            let x = unsafe { DATA[k] };
            assert!(p.data[k] == if k == (bits / 8) as usize { x | 0x80 >> (bits % 8) } else { x }, "data with its end tag");
        }
        kani::cover!(bits == 1023);
        std::mem::forget(p);
        Err(Error::Cancelled)
    }
    fn load_cell(&self, _: Cell, _: LoadMode) -> Result<Cell, Error> {
        unreachable!()
    }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, _: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> {
        unreachable!()
    }
}

fn build<const NREFS: usize>() {
    let n = NREFS;
    let data = any_builder();
    let exotic: bool = kani::any();
    let mut b = CellBuilder::from(data.clone());
    b.set_exotic(exotic);
    let mut i = 0;
    while i < 4 {
        if i < n {
            let c = any_child();
            unsafe { KIDS[i] = c };
            assert!(b.store_reference(Cell::from(Arc::new(c))).is_ok());
        }
        i += 1;
    }
    unsafe {
        DATA = *data.raw_data();
        BITS = data.size_bits();
        NREF = n;
        EXOTIC = exotic;
    }
    if n == 4 {
        assert!(matches!(b.store_reference(Cell::from(Arc::new(any_child()))), Err(Error::CellOverflow)), "at most four references");
        assert!(b.size_refs() == 4);
    }
    let r = b.build_ext(&Parts);
    assert!(matches!(r, Err(Error::Cancelled)));
    std::mem::forget(r);
}

//@ C07 quick complete | CellBuilder::{store_reference, set_exotic, build_ext} | all builder contents and flags, 0 arbitrary children
#[kani::proof]
#[kani::unwind(6)]
fn c07_build0() {
    build::<0>()
}
//@ C07 quick complete | CellBuilder::{store_reference, set_exotic, build_ext} | all builder contents and flags, 1 arbitrary children
#[kani::proof]
#[kani::unwind(6)]
fn c07_build1() {
    build::<1>()
}
//@ C07 quick complete | CellBuilder::{store_reference, set_exotic, build_ext} | all builder contents and flags, 2 arbitrary children
#[kani::proof]
#[kani::unwind(6)]
fn c07_build2() {
    build::<2>()
}
//@ C07 quick complete | CellBuilder::{store_reference, set_exotic, build_ext} | all builder contents and flags, 3 arbitrary children
#[kani::proof]
#[kani::unwind(6)]
fn c07_build3() {
    build::<3>()
}
//@ C07 quick complete | CellBuilder::{store_reference, set_exotic, build_ext} | all builder contents and flags, 4 arbitrary children
#[kani::proof]
#[kani::unwind(6)]
fn c07_build4() {
    build::<4>()
}

fn hw(h: &HashBytes) -> [u128; 2] {
    unsafe { core::mem::transmute(h.0) }
}

fn same(a: [u128; 2], b: [u128; 2]) -> bool {
    a[0] == b[0] && a[1] == b[1]
}

/// What is asked of an ordinary cell after it was made.
fn ordinary_at<const N: usize>(n: usize, kids: [Child; 4]) {
    let h = || ([kani::any::<u128>(), kani::any::<u128>()], kani::any::<u16>());
    let hs = [h(), h(), h(), h()];
    let mask = any_mask();
    let exotic: bool = kani::any();
    let d1 = mask << 5 | (exotic as u8) << 3 | n as u8;
    let bits: u16 = kani::any();
    kani::assume(bits <= 1023 && ((bits + 7) / 8) as usize <= N);
    let bytes = ((bits + 7) / 8) as usize;
    let d2 = (bits / 8) as u8 + bytes as u8;
    let data: [u8; N] = kani::any();
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < 4 {
        v.push((HashBytes(unsafe { core::mem::transmute::<[u128; 2], [u8; 32]>(hs[i].0) }), hs[i].1));
        i += 1;
    }
    unsafe { v.set_len(level_of(mask) as usize + 1) };
    let mut refs: [MaybeUninit<Cell>; 4] = [const { MaybeUninit::uninit() }; 4];
    let mut ptrs = [core::ptr::null(); 4];
    let mut i = 0;
    while i < n {
        let a = Arc::new(kids[i]);
        ptrs[i] = Arc::as_ptr(&a);
        refs[i] = MaybeUninit::new(Cell::from(a));
        i += 1;
    }
    let x = ordinary_cell(bits, CellDescriptor { d1, d2 }, v, refs, data);
    let d = x.descriptor();
    assert!(d.d1 == d1 && d.d2 == d2 && x.bit_len() == bits, "descriptor and size");
    assert!(x.data().len() == bytes);
    let k: usize = kani::any();
    if k < bytes {
        assert!(x.data()[k] == data[k], "data");
    }
    let l: u8 = kani::any();
    kani::assume(l <= 3);
    let at = level_of(mask & ((1u16 << l) - 1) as u8) as usize;
    assert!(same(hw(x.hash(l)), hs[at].0) && x.depth(l) == hs[at].1, "hash and depth of the highest significant level up to l");
    let i: u8 = kani::any();
    match x.reference(i) {
        Some(r) => assert!((i as usize) < n && core::ptr::addr_eq(r, ptrs[i as usize]), "children in order"),
        None => assert!(i as usize >= n),
    }
    // seen as a virtual cell, at most level 0 is left of a level 1 cell
    if mask <= 1 {
        let y = x.virtualize();
        let d = y.descriptor();
        assert!(d.d1 == d1 && d.d2 == d2 && y.bit_len() == bits && y.data().len() == bytes);
        assert!(same(hw(y.hash(l)), hs[0].0) && y.depth(l) == hs[0].1, "virtual cells show the hash and depth of level 0");
    }
    kani::cover!(at == 3);
    kani::cover!(mask == 1);
    std::mem::forget(x);
}

/// A cell with one child, behind a virtual cell.
struct Parent(Child, [u8; 16], u16);
static KID: Child = Child { d1: 0, hashes: [[1; 2]; 4], depths: [0; 4] };
impl CellImpl for Parent {
    fn untrack(self: CellInner<Self>) -> Cell {
        Cell::from(self)
    }
    fn descriptor(&self) -> CellDescriptor {
        self.0.descriptor()
    }
    fn data(&self) -> &[u8] {
        &self.1
    }
    fn bit_len(&self) -> u16 {
        self.2
    }
    fn reference(&self, _: u8) -> Option<&DynCell> {
        Some(&KID)
    }
    fn reference_cloned(&self, _: u8) -> Option<Cell> {
        None
    }
    fn virtualize(&self) -> &DynCell {
        VirtualCellWrapper::wrap(self)
    }
    fn hash(&self, level: u8) -> &HashBytes {
        self.0.hash(level)
    }
    fn depth(&self, level: u8) -> u16 {
        self.0.depth(level)
    }
    fn take_first_child(&mut self) -> Option<Cell> {
        None
    }
    fn replace_first_child(&mut self, c: Cell) -> Result<Cell, Cell> {
        Err(c)
    }
    fn take_next_child(&mut self) -> Option<Cell> {
        None
    }
}

//@ C07 quick complete | VirtualCellWrapper: CellImpl::{descriptor, data, bit_len, reference, hash, depth} | any cell of level 0 or 1
#[kani::proof]
#[kani::unwind(5)]
fn c07_virtual() {
    let c = any_child();
    kani::assume(c.d1 >> 5 <= 1);
    let p = Parent(c, kani::any(), kani::any());
    let y = VirtualCellWrapper::wrap(&p);
    assert!(y.descriptor().d1 == c.d1 && y.descriptor().d2 == 0 && y.bit_len() == p.2);
    assert!(y.data().as_ptr() == p.1.as_ptr() && y.data().len() == 16);
    let l: u8 = kani::any();
    kani::assume(l <= 3);
    assert!(y.depth(l) == c.depths[0] && same(hw(y.hash(l)), c.hashes[0]), "virtual cells show the hash and depth of level 0");
    match y.reference(0) {
        Some(r) => assert!(core::ptr::addr_eq(r, &VIRTUAL), "children of a virtual cell are virtual"),
        None => assert!(false, "children are kept"),
    }
    kani::cover!(true);
}

//@ C07 quick complete | PrunedBranch: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | all pruned branches of level 1, 2 and 3, all levels
#[kani::proof]
#[kani::unwind(5)]
fn c07_pruned_at() {
    pruned_at::<36>(1);
    pruned_at::<70>(2);
    pruned_at::<104>(3);
}

fn pruned_at<const N: usize>(level: u8) {
    let mask = any_mask();
    kani::assume(level_of(mask) == level);
    let d1 = mask << 5 | 8;
    let d2 = N as u8 * 2;
    let data: [u8; N] = kani::any();
    let repr = [kani::any::<u128>(), kani::any::<u128>()];
    let x = pruned(HashBytes(unsafe { core::mem::transmute::<[u128; 2], [u8; 32]>(repr) }), level, CellDescriptor { d1, d2 }, data);
    assert!(x.bit_len() as usize == N * 8 && x.data().len() == N && x.descriptor().d1 == d1 && x.descriptor().d2 == d2);
    let k: usize = kani::any();
    if k < N {
        assert!(x.data()[k] == data[k], "data");
    }
    assert!(x.reference(kani::any()).is_none() && x.reference_cloned(kani::any()).is_none());
    let l: u8 = kani::any();
    kani::assume(l <= 3);
    let at = level_of(mask & ((1u16 << l) - 1) as u8);
    let k: usize = kani::any();
    kani::assume(k < 32);
    if at == level {
        assert!(same(hw(x.hash(l)), repr) && x.depth(l) == 0, "at its own level the branch stands for itself");
    } else {
        let (h, d) = (2 + at as usize * 32, 2 + level as usize * 32 + at as usize * 2);
        assert!(x.hash(l).0[k] == data[h + k], "stored hash");
        assert!(x.depth(l) == (data[d] as u16) << 8 | data[d + 1] as u16, "stored depth");
    }
    if mask == 1 {
        let y = x.virtualize();
        assert!(y.hash(l).0[k] == data[2 + k], "virtual: the hash of the pruned cell");
        assert!(y.depth(l) == (data[34] as u16) << 8 | data[35] as u16, "virtual: the depth of the pruned cell");
        assert!(y.bit_len() as usize == N * 8 && y.descriptor().d1 == d1);
    }
}

fn level_of(m: u8) -> u8 {
    (m & 1) + (m >> 1 & 1) + (m >> 2 & 1)
}

macro_rules! ats {
    ($($name:ident $size:literal $n:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(std::vec::Vec::with_capacity, vec_with_capacity)]
        #[kani::stub(std::vec::Vec::push, vec_push)]
        fn $name() {
            ordinary_at::<$size>($n, [any_child(), any_child(), any_child(), any_child()])
        }
    )*};
}
//@ C07 quick complete | OrdinaryCell: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | no children, any level mask, hashes, depths, content up to 8 bytes | c07_ordinary_at0
//@ C07 quick complete | OrdinaryCell: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | 1 child, any level mask, hashes, depths, content up to 8 bytes | c07_ordinary_at1
//@ C07 quick complete | OrdinaryCell: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | 2 children, any level mask, hashes, depths, content up to 16 bytes | c07_ordinary_at2
//@ C07 quick complete | OrdinaryCell: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | 3 children, any level mask, hashes, depths, content up to 8 bytes | c07_ordinary_at3
//@ C07 quick complete | OrdinaryCell: CellImpl::{descriptor, data, bit_len, reference, hash, depth, virtualize}, VirtualCellWrapper | 4 children, any level mask, hashes, depths, content up to 128 bytes | c07_ordinary_at4
ats! {
    c07_ordinary_at0 8 0;
    c07_ordinary_at1 8 1;
    c07_ordinary_at2 16 2;
    c07_ordinary_at3 8 3;
    c07_ordinary_at4 128 4;
}
fn any_mask() -> u8 {
    let m: u8 = kani::any();
    kani::assume(m < 8);
    m
}
