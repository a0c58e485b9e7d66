//! The contracts of the bit-level operations of builders and slices (proved by
//! C01-C04) over real cell data, by word.
//!
//! Every function computes what its contract says on the bytes of the cell or of the
//! builder itself, taken as `$w` big endian words of 128 bits: what is not replaced
//! still works on the same bytes.  The cells of such a proof have at most `$w * 128` bits.
//! ASSUMES: bit-level operations of builders and slices stubbed by their C01-C04 contracts, by word over the bytes of the cell (bw.rs), where a harness says so
#[macro_export]
macro_rules! bits_world {
    ($name:ident $w:literal) => {
        pub mod $name {
            use std::sync::Arc;
            use tycho_types::cell::*;
            use tycho_types::error::Error;

            pub const W: usize = $w;
            pub type B = [u128; W];
            pub const BITS: u16 = $w * 128;

            /// `x << n`
            pub fn shl(x: B, n: u32) -> B {
                let (q, r) = ((n / 128) as usize, n % 128);
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    let mut k = 0;
                    while i + k < W {
                        if q == k {
                            o[i] = x[i + k] << r | if r != 0 && i + k + 1 < W { x[i + k + 1] >> (128 - r) } else { 0 };
                        }
                        k += 1;
                    }
                    i += 1;
                }
                o
            }
            /// `x >> n`
            pub fn shr(x: B, n: u32) -> B {
                let (q, r) = ((n / 128) as usize, n % 128);
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    let mut k = 0;
                    while k <= i {
                        if q == k {
                            o[i] = x[i - k] >> r | if r != 0 && i >= k + 1 { x[i - k - 1] << (128 - r) } else { 0 };
                        }
                        k += 1;
                    }
                    i += 1;
                }
                o
            }
            pub fn lz(x: B) -> u32 {
                let mut n = 0;
                let mut i = 0;
                while i < W {
                    if n == 128 * i as u32 {
                        n += x[i].leading_zeros();
                    }
                    i += 1;
                }
                n
            }
            /// The first `n` bits.
            pub fn first(x: B, n: u32) -> B {
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    let at = 128 * i as u32;
                    o[i] = if n >= at + 128 { x[i] } else if n <= at { 0 } else { x[i] & !(u128::MAX >> (n - at)) };
                    i += 1;
                }
                o
            }
            pub fn xor(x: B, y: B) -> B {
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    o[i] = x[i] ^ y[i];
                    i += 1;
                }
                o
            }
            pub fn or(x: B, y: B) -> B {
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    o[i] = x[i] | y[i];
                    i += 1;
                }
                o
            }
            pub fn same(x: B, y: B) -> bool {
                let mut d = 0;
                let mut i = 0;
                while i < W {
                    d |= x[i] ^ y[i];
                    i += 1;
                }
                d == 0
            }
            /// The number `v` of `n <= 128` bits, as the first bits.
            pub fn num(v: u128, n: u32) -> B {
                let mut o = [0; W];
                if n > 0 {
                    o[0] = v << (128 - n);
                }
                o
            }
            fn be(x: B) -> B {
                let mut o = [0; W];
                let mut i = 0;
                while i < W {
                    o[i] = x[i].to_be();
                    i += 1;
                }
                o
            }

            /// A string of bits (those after `n` are zero).
            #[derive(Clone, Copy)]
            pub struct Bits {
                pub b: B,
                pub n: u16,
            }
            impl Bits {
                pub const EMPTY: Self = Bits { b: [0; W], n: 0 };
                pub fn any(max: u16) -> Self {
                    let n: u16 = kani::any();
                    kani::assume(n <= max);
                    Self::any_of(n)
                }
                pub fn any_of(n: u16) -> Self {
                    Bits { b: first(kani::any(), n as u32), n }
                }
                pub fn num(v: u128, n: u16) -> Self {
                    Bits { b: num(v, n as u32), n }
                }
                pub fn then(self, o: Self) -> Self {
                    assert!(self.n + o.n <= BITS, "bits: too long");
                    Bits { b: or(self.b, shr(o.b, self.n as u32)), n: self.n + o.n }
                }
                pub fn skip(self, n: u16) -> Self {
                    Bits { b: shl(self.b, n as u32), n: self.n - n }
                }
                pub fn first(self, n: u16) -> Self {
                    Bits { b: first(self.b, n as u32), n }
                }
                pub fn bit(self, i: u16) -> bool {
                    shl(self.b, i as u32)[0] >> 127 != 0
                }
                pub fn is(self, o: Self) -> bool {
                    self.n == o.n && same(self.b, o.b)
                }
                /// The length of the longest common prefix.
                pub fn common(self, o: Self) -> u16 {
                    let l = lz(xor(self.b, o.b)) as u16;
                    let m = if self.n < o.n { self.n } else { o.n };
                    if l < m { l } else { m }
                }
                pub fn uniform(self) -> bool {
                    let x = if self.b[0] >> 127 != 0 { xor(self.b, [u128::MAX; W]) } else { self.b };
                    lz(x) as u16 >= self.n
                }
            }

            /// The double of a cell: its bits and references.
            #[repr(C)]
            pub struct BCell {
                pub data: B,
                pub bits: u16,
                pub refs: u8,
                pub kids: [Option<Cell>; 2],
            }
            impl BCell {
                pub fn bits(&self) -> Bits {
                    Bits { b: first(be(self.data), self.bits as u32), n: self.bits }
                }
                pub fn of(c: &DynCell) -> &BCell {
                    unsafe { &*(c as *const DynCell).cast::<BCell>() }
                }
                pub fn kid(&self, i: usize) -> &BCell {
                    let of = |o: &Option<Cell>| match o {
                        Some(c) => BCell::of(c.as_ref()) as *const BCell,
                        None => unreachable!(),
                    };
                    // (the cases apart, so that each pointer is known)
                    unsafe { &*if i == 0 { of(&self.kids[0]) } else { of(&self.kids[1]) } }
                }
            }
            impl CellImpl for BCell {
                fn untrack(self: CellInner<Self>) -> Cell {
                    Cell::from(self)
                }
                fn descriptor(&self) -> CellDescriptor {
                    CellDescriptor { d1: self.refs, d2: CellDescriptor::compute_d2(self.bits) }
                }
                fn data(&self) -> &[u8] {
                    unsafe { std::slice::from_raw_parts((&raw const self.data).cast(), self.bits.div_ceil(8) as usize) }
                }
                fn bit_len(&self) -> u16 {
                    self.bits
                }
                fn reference(&self, i: u8) -> Option<&DynCell> {
                    if i >= self.refs {
                        None
                    } else if i == 0 {
                        self.kids[0].as_ref().map(|c| c.as_ref())
                    } else {
                        self.kids[1].as_ref().map(|c| c.as_ref())
                    }
                }
                fn reference_cloned(&self, i: u8) -> Option<Cell> {
                    if i >= self.refs {
                        None
                    } else if i == 0 {
                        self.kids[0].clone()
                    } else {
                        self.kids[1].clone()
                    }
                }
                fn virtualize(&self) -> &DynCell {
                    self
                }
                fn hash(&self, _: u8) -> &HashBytes {
                    unreachable!()
                }
                fn depth(&self, _: u8) -> u16 {
                    0
                }
                fn take_first_child(&mut self) -> Option<Cell> {
                    None
                }
                fn replace_first_child(&mut self, parent: Cell) -> Result<Cell, Cell> {
                    Err(parent)
                }
                fn take_next_child(&mut self) -> Option<Cell> {
                    None
                }
            }

            /// Cells live in a static pool, laid out as the contents of an `Arc`.
            #[repr(C)]
            struct Slot {
                strong: usize,
                weak: usize,
                cell: BCell,
            }
            const SLOT: Slot = Slot {
                strong: 1,
                weak: 1,
                cell: BCell { data: [0; W], bits: 0, refs: 0, kids: [None, None] },
            };
            // (objects of their own: pointers to different cells are never offsets into one object)
            static mut S0: Slot = SLOT;
            static mut S1: Slot = SLOT;
            static mut S2: Slot = SLOT;
            static mut S3: Slot = SLOT;
            static mut S4: Slot = SLOT;
            static mut S5: Slot = SLOT;
            static mut S6: Slot = SLOT;
            static mut S7: Slot = SLOT;
            static mut S8: Slot = SLOT;
            static mut S9: Slot = SLOT;
            static mut USED: usize = 0;
            /// Puts a cell in the pool.
            pub fn cell(bits: Bits, refs: u8, kids: [Option<Cell>; 2]) -> Cell {
                unsafe {
                    let s = match USED {
                        0 => &raw mut S0,
                        1 => &raw mut S1,
                        2 => &raw mut S2,
                        3 => &raw mut S3,
                        4 => &raw mut S4,
                        5 => &raw mut S5,
                        6 => &raw mut S6,
                        7 => &raw mut S7,
                        8 => &raw mut S8,
                        9 => &raw mut S9,
                        _ => panic!("cells: too many"),
                    };
                    USED += 1;
                    (*s).cell.data = be(bits.b);
                    (*s).cell.bits = bits.n;
                    (*s).cell.refs = refs;
                    std::ptr::write(&raw mut (*s).cell.kids, kids);
                    Cell::from(Arc::from_raw(&raw const (*s).cell))
                }
            }

            /// A context which makes cells of the pool.
            pub struct Pool;
            impl CellContext for Pool {
                fn finalize_cell(&self, p: CellParts<'_>) -> Result<Cell, Error> {
                    assert!(p.bit_len <= BITS, "bits: too long");
                    assert!(p.descriptor.d1 & 0xf8 == 0 && p.descriptor.d2 == CellDescriptor::compute_d2(p.bit_len), "an ordinary cell");
                    let b = be(unsafe { p.data.as_ptr().cast::<B>().read_unaligned() });
                    let b = Bits { b: first(b, p.bit_len as u32), n: p.bit_len };
                    let r: &[Cell] = p.references.as_ref();
                    assert!(r.len() <= 2 && p.descriptor.d1 as usize == r.len(), "references");
                    let kids = match r.len() {
                        0 => [None, None],
                        1 => [Some(r[0].clone()), None],
                        _ => [Some(r[0].clone()), Some(r[1].clone())],
                    };
                    let n = r.len() as u8;
                    std::mem::forget(p);
                    Ok(cell(b, n, kids))
                }
                fn load_cell(&self, c: Cell, _: LoadMode) -> Result<Cell, Error> {
                    Ok(c)
                }
                fn load_dyn_cell<'s: 'a, 'a>(&'s self, c: &'a DynCell, _: LoadMode) -> Result<&'a DynCell, Error> {
                    Ok(c)
                }
            }

            // Reads.
            fn bytes(cs: &CellSlice<'_>) -> B {
                be(unsafe { cs.cell().data().as_ptr().cast::<B>().read_unaligned() })
            }
            /// The data of a slice.
            pub fn data(cs: &CellSlice<'_>) -> Bits {
                let (s, e, _, _) = cs.range().verif_parts();
                assert!(s <= e && e <= cs.cell().bit_len(), "bits: the slice is within its cell");
                Bits { b: first(shl(bytes(cs), s as u32), (e - s) as u32), n: e - s }
            }
            fn peek(cs: &CellSlice<'_>, off: u16, n: u16) -> Result<u128, Error> {
                let (s, e, _, _) = cs.range().verif_parts();
                if s as u32 + off as u32 + n as u32 > e as u32 {
                    return Err(Error::CellUnderflow);
                }
                Ok(if n == 0 { 0 } else { shl(bytes(cs), (s + off) as u32)[0] >> (128 - n as u32) })
            }
            pub fn get_bit<'a: 'a>(cs: &CellSlice<'a>, off: u16) -> Result<bool, Error> {
                peek(cs, off, 1).map(|x| x != 0)
            }
            pub fn load_bit<'a: 'a>(cs: &mut CellSlice<'a>) -> Result<bool, Error> {
                let x = peek(cs, 0, 1)?;
                cs.skip_first(1, 0)?;
                Ok(x != 0)
            }
            pub fn get_uint<'a: 'a>(cs: &CellSlice<'a>, off: u16, n: u16) -> Result<u64, Error> {
                if n == 0 {
                    Ok(0)
                } else if n > 64 {
                    Err(Error::CellUnderflow)
                } else {
                    peek(cs, off, n).map(|x| x as u64)
                }
            }
            pub fn load_uint<'a: 'a>(cs: &mut CellSlice<'a>, n: u16) -> Result<u64, Error> {
                let x = get_uint(cs, 0, n)?;
                cs.skip_first(n, 0)?;
                Ok(x)
            }
            pub fn get_small_uint<'a: 'a>(cs: &CellSlice<'a>, off: u16, n: u16) -> Result<u8, Error> {
                if n > 8 { Err(Error::CellUnderflow) } else { get_uint(cs, off, n).map(|x| x as u8) }
            }
            pub fn load_small_uint<'a: 'a>(cs: &mut CellSlice<'a>, n: u16) -> Result<u8, Error> {
                let x = get_small_uint(cs, 0, n)?;
                cs.skip_first(n, 0)?;
                Ok(x)
            }
            pub fn longest_common<'a: 'a, 'o, 'i>(a: &'i CellSlice<'a>, o: &'o CellSlice<'a>) -> CellSlice<'a> {
                a.get_prefix(data(a).common(data(o)), 0)
            }
            pub fn strip<'a: 'a, 'b>(a: &CellSlice<'a>, p: &CellSlice<'b>) -> Option<CellSlice<'a>> {
                let (x, p) = (data(a), data(p));
                if p.n <= x.n && x.common(p) == p.n {
                    let mut r = *a;
                    let _ = r.skip_first(p.n, 0);
                    Some(r)
                } else {
                    None
                }
            }
            pub fn test_uniform<'a: 'a>(cs: &CellSlice<'a>) -> Option<bool> {
                let x = data(cs);
                if x.n > 0 && x.uniform() { Some(x.bit(0)) } else { None }
            }

            // Appends.
            fn put(b: &mut CellDataBuilder, x: Bits) -> Result<(), Error> {
                let len = b.size_bits();
                if len as u32 + x.n as u32 > 1023 {
                    return Err(Error::CellOverflow);
                }
                assert!(len + x.n <= BITS, "bits: too long");
                let p = b.verif_data().cast::<B>();
                unsafe {
                    let old = first(be(p.read_unaligned()), len as u32);
                    p.write_unaligned(be(or(old, shr(x.b, len as u32))));
                }
                b.verif_set_size(len + x.n);
                Ok(())
            }
            pub fn store_uint(b: &mut CellDataBuilder, v: u64, n: u16) -> Result<(), Error> {
                assert!(n <= 128, "bits: widths above 128 bits are not modelled");
                put(b, Bits::num(v as u128, n))
            }
            pub fn store_small_uint(b: &mut CellDataBuilder, v: u8, n: u16) -> Result<(), Error> {
                store_uint(b, v as u64, n)
            }
            pub fn store_zeros(b: &mut CellDataBuilder, n: u16) -> Result<(), Error> {
                put(b, Bits { b: [0; W], n })
            }
            pub fn store_bit_zero(b: &mut CellDataBuilder) -> Result<(), Error> {
                put(b, Bits { b: [0; W], n: 1 })
            }
            pub fn store_bit_one(b: &mut CellDataBuilder) -> Result<(), Error> {
                put(b, Bits::num(1, 1))
            }
            pub fn store_bit(b: &mut CellDataBuilder, v: bool) -> Result<(), Error> {
                put(b, Bits::num(v as u128, 1))
            }
            pub fn store_u32(b: &mut CellDataBuilder, v: u32) -> Result<(), Error> {
                put(b, Bits::num(v as u128, 32))
            }
            pub fn store_slice_data<'a: 'a, T: AsRef<CellSlice<'a>>>(b: &mut CellDataBuilder, v: T) -> Result<(), Error> {
                put(b, data(v.as_ref()))
            }
        }
    };
}
bits_world!(one 1);
bits_world!(three 3);

/// Stubs of the given world.
#[macro_export]
macro_rules! with_bits {
    ($w:tt $(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, bw::$w::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, bw::$w::store_small_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_zeros, bw::$w::store_zeros)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_zero, bw::$w::store_bit_zero)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_one, bw::$w::store_bit_one)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit, bw::$w::store_bit)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u32, bw::$w::store_u32)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_slice_data, bw::$w::store_slice_data)]
        #[kani::stub(tycho_types::cell::CellSlice::get_bit, bw::$w::get_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::load_bit, bw::$w::load_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::get_uint, bw::$w::get_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_uint, bw::$w::load_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::get_small_uint, bw::$w::get_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_small_uint, bw::$w::load_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::longest_common_data_prefix, bw::$w::longest_common)]
        #[kani::stub(tycho_types::cell::CellSlice::strip_data_prefix, bw::$w::strip)]
        #[kani::stub(tycho_types::cell::CellSlice::test_uniform, bw::$w::test_uniform)]
        #[kani::stub(std::sync::Arc::drop_slow, util::arc_drop_slow)]
        $(#[$a])*
        fn $name() $body
    };
}
