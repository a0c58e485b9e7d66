//! Spec-level helpers shared by all harnesses.
//!
//! Everything here is specification: the harnesses call the real code in
//! `/repo` and compare it with these definitions.
use tycho_types::cell::*;
use tycho_types::error::Error;

/// Spec: `i`-th bit (big endian bit order) of a byte array.
pub fn bit(d: &[u8], i: usize) -> bool {
    (d[i >> 3] >> (7 - (i & 7))) & 1 == 1
}

/// An arbitrary builder satisfying the representation invariant: `bit_len <= 1023`
/// and every bit at or after `bit_len` is zero.
///
/// The "bits past the end are zero" part is a quantified precondition; it is
/// instantiated here for the byte holding the end and, by [`tail_zero_at`], for
/// the one byte a postcondition looks at.  Assuming fewer instances only makes
/// the proved statement stronger.
pub fn any_builder() -> CellDataBuilder {
    let data: [u8; 128] = kani::any();
    let len: u16 = kani::any();
    kani::assume(len <= 1023);
    kani::assume(data[(len >> 3) as usize] & (0xffu8 >> (len & 7)) == 0);
    CellDataBuilder::verif_from_parts(data, len)
}

/// Instantiates the representation invariant of `b` at byte `i`.
pub fn tail_zero_at(b: &CellDataBuilder, i: usize) {
    if i > (b.size_bits() >> 3) as usize {
        kani::assume(b.raw_data()[i] == 0);
    }
}

/// `core::ptr::copy_nonoverlapping` as a plain loop (used as a stub: CBMC models
/// a `memcpy` of symbolic length with unbounded arrays, which is much slower).
pub unsafe fn copy_loop<T>(src: *const T, dst: *mut T, count: usize) {
    let mut i = 0;
    while i < count {
        unsafe { core::ptr::write(dst.add(i), core::ptr::read(src.add(i))) };
        i += 1;
    }
}

/// Spec of a successful append of `n` bits given by `f` to a builder with the
/// former contents `(old, old_len)`.
pub fn check_append(
    old: &CellDataBuilder,
    new: &CellDataBuilder,
    n: u16,
    f: impl Fn(u16) -> bool,
) {
    let old_len = old.size_bits();
    assert!(new.size_bits() as u32 == old_len as u32 + n as u32, "size grows by exactly the number of stored bits");
    let k: u16 = kani::any();
    kani::assume(k < 1024);
    tail_zero_at(old, (k >> 3) as usize);
    let b = bit(new.raw_data(), k as usize);
    if k < old_len {
        assert!(b == bit(old.raw_data(), k as usize), "earlier bits are kept");
    } else if (k as u32) < old_len as u32 + n as u32 {
        assert!(b == f(k - old_len), "appended bits equal the value");
    } else {
        assert!(!b, "bits past the end stay zero");
    }
}

/// Spec of a refused operation: the builder is exactly as before.
pub fn check_unchanged(old: &CellDataBuilder, new: &CellDataBuilder) {
    assert!(new.size_bits() == old.size_bits(), "size is unchanged on error");
    let k: usize = kani::any();
    kani::assume(k < 128);
    assert!(new.raw_data()[k] == old.raw_data()[k], "data is unchanged on error");
}

/// Full contract of a store operation of `n` bits given by `f`.
pub fn check_store(
    old: &CellDataBuilder,
    new: &CellDataBuilder,
    res: Result<(), Error>,
    n: u16,
    f: impl Fn(u16) -> bool,
) {
    let fits = old.size_bits() as u32 + n as u32 <= 1023;
    match res {
        Ok(()) => {
            assert!(fits, "store succeeds only when there is room");
            check_append(old, new, n, f);
        }
        Err(e) => {
            assert!(!fits, "store fails only when there is no room");
            assert!(matches!(e, Error::CellOverflow), "overflow is reported as CellOverflow");
            check_unchanged(old, new);
        }
    }
    kani::cover!(fits, "cover: fits");
}

/// A cell double: an arbitrary cell of at most `N` bytes seen only through the
/// `CellImpl` trait.  It carries no reachable children (slices tested with it only
/// look at data).  Bits after `bits` in its last byte are arbitrary.
pub struct TCell<const N: usize = 128> {
    pub data: [u8; N],
    pub pad: usize,
    pub bits: u16,
    pub d1: u8,
    pub hashes: [HashBytes; 4],
    pub depths: [u16; 4],
}

impl<const N: usize> TCell<N> {
    pub fn with(data: [u8; N], bits: u16) -> Self {
        TCell { data, pad: 0, bits, d1: 0, hashes: [HashBytes([0; 32]); 4], depths: [0; 4] }
    }
    pub fn any_data() -> Self {
        let bits: u16 = kani::any();
        kani::assume(bits <= 1023 && bits as usize <= N * 8);
        Self::with(kani::any(), bits)
    }
    /// The data starts at an arbitrary alignment.
    pub fn any_data_unaligned() -> Self {
        let mut c = Self::any_data();
        c.pad = kani::any();
        kani::assume(c.pad < 8 && c.pad + ((c.bits + 7) / 8) as usize <= N);
        c
    }
    pub fn bit(&self, i: u16) -> bool {
        bit(&self.data, self.pad * 8 + i as usize)
    }
    pub fn as_dyn(&self) -> &DynCell {
        self
    }
}

impl<const N: usize> CellImpl for TCell<N> {
    fn untrack(self: CellInner<Self>) -> Cell {
        unreachable!()
    }
    fn descriptor(&self) -> CellDescriptor {
        CellDescriptor { d1: self.d1, d2: CellDescriptor::compute_d2(self.bits) }
    }
    fn data(&self) -> &[u8] {
        &self.data[self.pad..self.pad + ((self.bits + 7) / 8) as usize]
    }
    fn bit_len(&self) -> u16 {
        self.bits
    }
    fn reference(&self, _: u8) -> Option<&DynCell> {
        None
    }
    fn reference_cloned(&self, _: u8) -> Option<Cell> {
        None
    }
    fn virtualize(&self) -> &DynCell {
        self
    }
    fn hash(&self, level: u8) -> &HashBytes {
        &self.hashes[(level & 3) as usize]
    }
    fn depth(&self, level: u8) -> u16 {
        self.depths[(level & 3) as usize]
    }
    fn take_first_child(&mut self) -> Option<Cell> {
        None
    }
    fn replace_first_child(&mut self, parent: Cell) -> Result<Cell, Cell> {
        Err(parent)
    }
    fn take_next_child(&mut self) -> Option<Cell> {
        None
    }
}

pub fn dynref(c: &TCell<128>) -> &DynCell {
    c
}

/// An arbitrary window of a cell: `start <= end <= size` for bits.
pub fn any_range(bits: u16) -> CellSliceRange {
    let (s, e): (u16, u16) = kani::any();
    kani::assume(s <= e && e <= bits);
    CellSliceRange::verif_from_parts(s, e, 0, 0)
}

/// A cell context for encoders that must not touch cells at all.
pub struct NoCtx;
impl CellContext for NoCtx {
    fn finalize_cell(&self, _: CellParts<'_>) -> Result<Cell, Error> {
        unreachable!()
    }
    fn load_cell(&self, _: Cell, _: LoadMode) -> Result<Cell, Error> {
        unreachable!()
    }
    fn load_dyn_cell<'s: 'a, 'a>(&'s self, _: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> {
        unreachable!()
    }
}

/// `Vec::with_capacity` for small requests: the capacity is only a lower bound, and a
/// constant one is much cheaper to reason about.
pub fn vec_with_capacity<T>(n: usize) -> Vec<T> {
    assert!(n <= 4, "vec: capacity above 4 is not modelled");
    let b = Box::<[std::mem::MaybeUninit<T>; 4]>::new([const { std::mem::MaybeUninit::uninit() }; 4]);
    unsafe { Vec::from_raw_parts(Box::into_raw(b) as *mut T, 0, 4) }
}
/// `Vec::push` which never has to grow.
pub fn vec_push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    let n = v.len();
    assert!(n < v.capacity(), "vec: growing is not modelled");
    unsafe {
        std::ptr::write(v.as_mut_ptr().add(n), x);
        v.set_len(n + 1);
    }
}

/// Reclaiming memory is not modelled: the last owner of a cell leaks it.
pub unsafe fn arc_drop_slow<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::sync::Arc<T, A>) {}
