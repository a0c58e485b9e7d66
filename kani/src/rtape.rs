//! The contracts of the slice's read operations (proved by C03), as stubs.
//!
//! The mirror image of `tape.rs`: a harness that proves a property of a *caller*
//! of the read operations may replace them by these functions.  Each one is the
//! C03 contract over an abstract cell: its data bits are kept as eight 128-bit
//! words (the cell double itself has no data bytes, so that a read operation
//! that is not replaced cannot go unnoticed).
//! ASSUMES: read operations stubbed by their C03 contracts over a ghost cell (rtape.rs), where a harness says so
use crate::tape::Tape;
use crate::util::*;
use tycho_types::cell::*;
use tycho_types::error::Error;

use crate::tape::{Words, ZERO, shl};

static mut R: Words = ZERO; // the bits of the cell, left aligned
static mut CUR: Words = ZERO; // the bits from POS on, left aligned
static mut MARKS: Words = ZERO; // marks of opaque values from POS on
static mut OPAQUE: bool = false;
static mut POS: u16 = 0;

/// An abstract cell of at most 1023 arbitrary data bits.
pub struct RCell {
    pub cell: TCell<1>,
}

impl RCell {
    /// Only the first `words` words are arbitrary.
    pub fn any(words: usize) -> Self {
        let bits: u16 = kani::any();
        kani::assume(bits <= 1023 && bits as usize <= words * 128);
        let mut w = ZERO;
        let mut i = 0;
        while i < words {
            w[i] = kani::any();
            i += 1;
        }
        Self::of(w, bits)
    }
    /// The cell with exactly the bits stored into `b` (from empty).
    pub fn written(b: &CellBuilder) -> Self {
        let n = Tape::len();
        assert!(n < 1024, "tape: too long");
        let c = Self::of(if n == 0 { ZERO } else { shl(Tape::words(), 1024 - n) }, b.size_bits());
        unsafe {
            MARKS = if n == 0 { ZERO } else { shl(Tape::marks(), 1024 - n) };
            OPAQUE = true;
        }
        c
    }
    pub fn of(w: Words, bits: u16) -> Self {
        unsafe {
            R = w;
            CUR = w;
            MARKS = ZERO;
            OPAQUE = false;
            POS = 0;
        }
        RCell { cell: TCell::with([0], bits) }
    }
    /// As `written`, with `flip` xored over the first 128 bits and the last `cut` bits removed.
    pub fn altered(b: &CellBuilder, flip: u128, cut: u16) -> Self {
        let mut c = Self::written(b);
        c.cell.bits -= cut;
        unsafe {
            R[0] ^= flip;
            CUR[0] ^= flip;
        }
        c
    }
    /// A slice of the whole cell.
    pub fn slice(&self) -> CellSlice<'_> {
        CellSliceRange::verif_from_parts(0, self.cell.bits, 0, 0).apply_allow_exotic(self.cell.as_dyn())
    }
}

/// `n <= 128` bits at `off`, right aligned.
pub fn bits(off: u16, n: u16) -> u128 {
    if n == 0 {
        return 0;
    }
    shl(unsafe { R }, off as u32)[0] >> (128 - n as u32)
}

/// `n <= 128` bits at `off` after the current position.
fn peek(off: u16, n: u16) -> u128 {
    let w = unsafe { if off == 0 { CUR } else { shl(CUR, off as u32) } };
    if n == 0 {
        return 0;
    }
    if unsafe { OPAQUE } {
        let m = unsafe { if off == 0 { MARKS } else { shl(MARKS, off as u32) } };
        assert!(m[0] >> (128 - n as u32) == 0, "tape: an integer is read as raw bits");
    }
    w[0] >> (128 - n as u32)
}
fn get(cs: &CellSlice<'_>, off: u16, n: u16) -> Result<u128, Error> {
    let (s, e, _, _) = cs.range().verif_parts();
    assert!(s == unsafe { POS }, "tape: reads are sequential");
    if s as u32 + off as u32 + n as u32 <= e as u32 { Ok(peek(off, n)) } else { Err(Error::CellUnderflow) }
}
fn advance(cs: &mut CellSlice<'_>, n: u16) {
    unsafe {
        CUR = shl(CUR, n as u32);
        if OPAQUE {
            MARKS = shl(MARKS, n as u32);
        }
        POS += n;
    }
    assert!(cs.skip_first(n, 0).is_ok());
}
fn load(cs: &mut CellSlice<'_>, n: u16) -> Result<u128, Error> {
    let r = get(cs, 0, n)?;
    advance(cs, n);
    Ok(r)
}

pub fn get_bit<'a: 'a>(cs: &CellSlice<'a>, off: u16) -> Result<bool, Error> {
    get(cs, off, 1).map(|x| x != 0)
}
pub fn load_bit<'a: 'a>(cs: &mut CellSlice<'a>) -> Result<bool, Error> {
    load(cs, 1).map(|x| x != 0)
}
macro_rules! ints {
    ($($get:ident $load:ident $t:ident $n:literal),*) => {$(
        pub fn $get<'a: 'a>(cs: &CellSlice<'a>, off: u16) -> Result<$t, Error> {
            get(cs, off, $n).map(|x| x as $t)
        }
        pub fn $load<'a: 'a>(cs: &mut CellSlice<'a>) -> Result<$t, Error> {
            load(cs, $n).map(|x| x as $t)
        }
    )*};
}
ints!(get_u8 load_u8 u8 8, get_u16 load_u16 u16 16, get_u32 load_u32 u32 32, get_u64 load_u64 u64 64, get_u128 load_u128 u128 128);

pub fn get_small_uint<'a: 'a>(cs: &CellSlice<'a>, off: u16, n: u16) -> Result<u8, Error> {
    if n == 0 {
        Ok(0)
    } else if n > 8 {
        Err(Error::CellUnderflow)
    } else {
        get(cs, off, n).map(|x| x as u8)
    }
}
pub fn load_small_uint<'a: 'a>(cs: &mut CellSlice<'a>, n: u16) -> Result<u8, Error> {
    let r = get_small_uint(cs, 0, n)?;
    advance(cs, n);
    Ok(r)
}
pub fn get_uint<'a: 'a>(cs: &CellSlice<'a>, off: u16, n: u16) -> Result<u64, Error> {
    if n == 0 {
        Ok(0)
    } else if n > 64 {
        Err(Error::CellUnderflow)
    } else {
        get(cs, off, n).map(|x| x as u64)
    }
}
pub fn load_uint<'a: 'a>(cs: &mut CellSlice<'a>, n: u16) -> Result<u64, Error> {
    let r = get_uint(cs, 0, n)?;
    advance(cs, n);
    Ok(r)
}
pub fn get_u256<'a: 'a>(cs: &CellSlice<'a>, off: u16) -> Result<HashBytes, Error> {
    let (s, e, _, _) = cs.range().verif_parts();
    assert!(s == unsafe { POS }, "tape: reads are sequential");
    if s as u32 + off as u32 + 256 > e as u32 {
        return Err(Error::CellUnderflow);
    }
    let (hi, lo) = (peek(off, 128), peek(off + 128, 128));
    let h: [u8; 32] = unsafe { core::mem::transmute([hi.to_be(), lo.to_be()]) };
    Ok(HashBytes(h))
}
pub fn load_u256<'a: 'a>(cs: &mut CellSlice<'a>) -> Result<HashBytes, Error> {
    let r = get_u256(cs, 0)?;
    advance(cs, 256);
    Ok(r)
}
pub fn get_raw<'a: 'a, 'b>(cs: &CellSlice<'a>, off: u16, target: &'b mut [u8], n: u16) -> Result<&'b mut [u8], Error> {
    if n == 0 {
        return Ok(&mut target[..0]);
    }
    let (s, e, _, _) = cs.range().verif_parts();
    let len = ((n + 7) / 8) as usize;
    assert!(s == unsafe { POS }, "tape: reads are sequential");
    if s as u32 + off as u32 + n as u32 > e as u32 || len > target.len() {
        return Err(Error::CellUnderflow);
    }
    if n > 128 && n % 128 == 0 {
        let mut i = 0;
        while i < len / 16 {
            let x = peek(off + 128 * i as u16, 128).to_be_bytes();
            target[16 * i..16 * i + 16].copy_from_slice(&x);
            i += 1;
        }
        return Ok(&mut target[..len]);
    }
    let mut i = 0;
    while i < len {
        let have = n - 8 * i as u16;
        let m = if have < 8 { have } else { 8 };
        target[i] = (peek(off + 8 * i as u16, m) << (8 - m)) as u8;
        i += 1;
    }
    Ok(&mut target[..len])
}
pub fn load_raw<'a: 'a, 'b>(cs: &mut CellSlice<'a>, target: &'b mut [u8], n: u16) -> Result<&'b mut [u8], Error> {
    let r = get_raw(cs, 0, target, n)?;
    advance(cs, n);
    Ok(r)
}

// Variable-length integers by their C11 contracts.
fn load_var(cs: &mut CellSlice<'_>, len_bits: u16, max: u16) -> Result<u128, Error> {
    if unsafe { OPAQUE } {
        let (s, e, _, _) = cs.range().verif_parts();
        unsafe {
            assert!(s == POS, "tape: reads are sequential");
            if s == e {
                return Err(Error::CellUnderflow);
            }
            assert!(MARKS[0] >> (128 - 8 * max as u32) == 1 << (8 * max - 1), "tape: an integer of the same type was written here");
            let v = CUR[0] >> (128 - 8 * max as u32);
            let n = len_bits + ((128 - v.leading_zeros() as u16 + 7) / 8) * 8;
            if s + n > e {
                return Err(Error::CellUnderflow);
            }
            CUR = shl(CUR, 8 * max as u32);
            MARKS = shl(MARKS, 8 * max as u32);
            POS += n;
            assert!(cs.skip_first(n, 0).is_ok());
            Ok(v)
        }
    } else {
        let bytes = load(cs, len_bits)?;
        load(cs, bytes as u16 * 8)
    }
}
macro_rules! vars {
    ($($load:ident $t:ty, $inner:ty, $len:literal, $max:literal);*) => {$(
        pub fn $load<'a: 'a>(cs: &mut CellSlice<'a>) -> Result<$t, Error> {
            load_var(cs, $len, $max).map(|x| <$t>::new(x as $inner))
        }
    )*};
}
vars!(load_var24 tycho_types::num::VarUint24, u32, 2, 3; load_var56 tycho_types::num::VarUint56, u64, 3, 7; load_tokens tycho_types::num::Tokens, u128, 4, 15);

#[macro_export]
macro_rules! with_rtape {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(tycho_types::cell::CellSlice::get_bit, rtape::get_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::load_bit, rtape::load_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u8, rtape::get_u8)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u8, rtape::load_u8)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u16, rtape::get_u16)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u16, rtape::load_u16)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u32, rtape::get_u32)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u32, rtape::load_u32)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u64, rtape::get_u64)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u64, rtape::load_u64)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u128, rtape::get_u128)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u128, rtape::load_u128)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u256, rtape::get_u256)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u256, rtape::load_u256)]
        #[kani::stub(tycho_types::cell::CellSlice::get_small_uint, rtape::get_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_small_uint, rtape::load_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::get_uint, rtape::get_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_uint, rtape::load_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::get_raw, rtape::get_raw)]
        #[kani::stub(tycho_types::cell::CellSlice::load_raw, rtape::load_raw)]
        $(#[$a])*
        fn $name() $body
    };
}
