//! The contracts of the builder's append operations (proved by C01), as stubs.
//!
//! A harness that proves a property of a *caller* of the append operations may
//! replace them by these functions: each one is exactly the C01 contract over an
//! abstract view of the builder, the sequence of appended bits kept as one 1024-bit
//! integer.  Only the size of the builder itself is advanced; the harness must
//! look at the contents through [`Tape`] only.
//! ASSUMES: append operations stubbed by their C01 contracts over a ghost bit tape (tape.rs), where a harness says so
use tycho_types::cell::*;
use tycho_types::error::Error;

/// Number of words of the tape.
pub const K: usize = 8;
pub type Words = [u128; K];
pub const ZERO: Words = [0; K];

static mut W: Words = ZERO; // big endian words
static mut M: Words = ZERO; // marks the first bit of every opaque value
static mut LEN: u32 = 0;

pub struct Tape;

impl Tape {
    /// Number of bits appended so far.
    pub fn len() -> u32 {
        unsafe { LEN }
    }
    pub fn words() -> Words {
        unsafe { W }
    }
    pub fn marks() -> Words {
        unsafe { M }
    }
    pub fn reset() {
        unsafe {
            W = ZERO;
            M = ZERO;
            LEN = 0;
        }
    }
    fn push(v: u128, n: u32) {
        unsafe {
            W = append(W, v, n);
            M = append(M, 0, n);
            LEN += n;
        }
    }
    /// A value that only the matching read operation can read back, as `n` bits.
    fn push_opaque(v: u128, n: u32) {
        unsafe {
            W = append(W, v, n);
            M = append(M, 1 << (n - 1), n);
            LEN += n;
        }
    }
}

/// `(w << n) | (v mod 2^n)` on 1024 bits, `n <= 128`.
pub fn append(w: Words, v: u128, n: u32) -> Words {
    if n == 0 {
        return w;
    }
    let m = if n == 128 { v } else { v & ((1u128 << n) - 1) };
    let [a, b, c, d, e, f, g, h] = w;
    let s = |x: u128, y: u128| if n == 128 { y } else { (x << n) | (y >> (128 - n)) };
    [s(a, b), s(b, c), s(c, d), s(d, e), s(e, f), s(f, g), s(g, h), if n == 128 { m } else { (h << n) | m }]
}

fn push_all(b: &mut CellDataBuilder, n: u16, parts: &[(u128, u32)]) -> Result<(), Error> {
    let len = b.size_bits();
    if len as u32 + n as u32 > 1023 {
        return Err(Error::CellOverflow);
    }
    let mut i = 0;
    while i < parts.len() {
        Tape::push(parts[i].0, parts[i].1);
        i += 1;
    }
    b.verif_set_size(len + n);
    Ok(())
}

pub fn store_uint(b: &mut CellDataBuilder, v: u64, n: u16) -> Result<(), Error> {
    if n <= 128 {
        push_all(b, n, &[(v as u128, n as u32)])
    } else {
        assert!(b.size_bits() as u32 + n as u32 > 1023, "tape: widths above 128 bits are not modelled");
        Err(Error::CellOverflow)
    }
}
pub fn store_small_uint(b: &mut CellDataBuilder, v: u8, n: u16) -> Result<(), Error> {
    store_uint(b, v as u64, n)
}
pub fn store_zeros(b: &mut CellDataBuilder, n: u16) -> Result<(), Error> {
    if n > 128 {
        assert!(b.size_bits() as u32 + n as u32 > 1023, "tape: runs of more than 128 zeros are not modelled");
    }
    push_all(b, n, &[(0, n as u32)])
}
pub fn store_bit_zero(b: &mut CellDataBuilder) -> Result<(), Error> {
    push_all(b, 1, &[(0, 1)])
}
pub fn store_bit_one(b: &mut CellDataBuilder) -> Result<(), Error> {
    push_all(b, 1, &[(1, 1)])
}
pub fn store_bit(b: &mut CellDataBuilder, v: bool) -> Result<(), Error> {
    push_all(b, 1, &[(v as u128, 1)])
}
pub fn store_u8(b: &mut CellDataBuilder, v: u8) -> Result<(), Error> {
    push_all(b, 8, &[(v as u128, 8)])
}
pub fn store_u16(b: &mut CellDataBuilder, v: u16) -> Result<(), Error> {
    push_all(b, 16, &[(v as u128, 16)])
}
pub fn store_u32(b: &mut CellDataBuilder, v: u32) -> Result<(), Error> {
    push_all(b, 32, &[(v as u128, 32)])
}
pub fn store_u64(b: &mut CellDataBuilder, v: u64) -> Result<(), Error> {
    push_all(b, 64, &[(v as u128, 64)])
}
pub fn store_u128(b: &mut CellDataBuilder, v: u128) -> Result<(), Error> {
    push_all(b, 128, &[(v, 128)])
}

/// Word-wise equality (no `memcmp`).
pub fn is(w: Words, s: Words) -> bool {
    w[0] == s[0] && w[1] == s[1] && w[2] == s[2] && w[3] == s[3] && w[4] == s[4] && w[5] == s[5] && w[6] == s[6] && w[7] == s[7]
}
/// The tape holds exactly the number `v`.
pub fn is_small(w: Words, v: u128) -> bool {
    is(w, [0, 0, 0, 0, 0, 0, 0, v])
}
/// `(w << n)` for `n < 1024`.
pub fn shl(w: Words, n: u32) -> Words {
    let [a, b, c, d, e, f, g, h] = w;
    let [a, b, c, d, e, f, g, h] = if n & 512 != 0 { [e, f, g, h, 0, 0, 0, 0] } else { [a, b, c, d, e, f, g, h] };
    let [a, b, c, d, e, f, g, h] = if n & 256 != 0 { [c, d, e, f, g, h, 0, 0] } else { [a, b, c, d, e, f, g, h] };
    let [a, b, c, d, e, f, g, h] = if n & 128 != 0 { [b, c, d, e, f, g, h, 0] } else { [a, b, c, d, e, f, g, h] };
    let r = n & 127;
    if r == 0 {
        return [a, b, c, d, e, f, g, h];
    }
    let s = |x: u128, y: u128| (x << r) | (y >> (128 - r));
    [s(a, b), s(b, c), s(c, d), s(d, e), s(e, f), s(f, g), s(g, h), h << r]
}

fn word(v: &[u8; 32], at: usize) -> u128 {
    let mut x = 0u128;
    let mut i = 0;
    while i < 16 {
        x = (x << 8) | v[at + i] as u128;
        i += 1;
    }
    x
}
pub fn store_u256<T: AsRef<[u8; 32]>>(b: &mut CellDataBuilder, v: &T) -> Result<(), Error> {
    let v: &[u8; 32] = v.as_ref();
    push_all(b, 256, &[(word(v, 0), 128), (word(v, 16), 128)])
}
/// `store_raw` for up to 128 bits and sources of at most 16 bytes.
pub fn store_raw(b: &mut CellDataBuilder, v: &[u8], n: u16) -> Result<(), Error> {
    if b.size_bits() as u32 + n as u32 > 1023 {
        return Err(Error::CellOverflow);
    }
    if n > 128 {
        assert!(n % 128 == 0 && v.len() == n as usize / 8, "tape: only whole sources of whole words above 128 bits");
        let mut i = 0;
        while i < v.len() / 16 {
            let mut x = 0u128;
            let mut j = 0;
            while j < 16 {
                x = (x << 8) | v[16 * i + j] as u128;
                j += 1;
            }
            assert!(push_all(b, 128, &[(x, 128)]).is_ok());
            i += 1;
        }
        return Ok(());
    }
    // a source shorter than the width is padded on the left, a longer one is cut on the right
    let mut x = 0u128;
    let mut i = 0;
    while i < v.len() && i * 8 < n as usize {
        x = (x << 8) | v[i] as u128;
        i += 1;
    }
    let have = i as u32 * 8;
    if have > n as u32 {
        x >>= have - n as u32;
    }
    push_all(b, n, &[(x, n as u32)])
}

// Variable-length integers by their C11 contracts.  C11 shows that their encoding
// is self-delimiting and read back exactly, so the tape keeps the value itself,
// as a marked field of the greatest width; the builder and the slice move by the
// true encoded size.
fn store_var(b: &mut CellBuilder, v: u128, bytes: u32, len_bits: u32, max: u32) -> Result<(), Error> {
    if bytes > max || b.size_bits() as u32 + len_bits + bytes * 8 > 1023 {
        return Err(Error::CellOverflow);
    }
    Tape::push_opaque(v, max * 8);
    let len = b.size_bits();
    b.verif_set_size(len + (len_bits + bytes * 8) as u16);
    Ok(())
}
macro_rules! vars {
    ($($store:ident $t:ty, $inner:ty, $len:literal, $max:literal);*) => {$(
        pub fn $store(v: &$t, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
            let x = v.into_inner();
            store_var(b, x as u128, (<$inner>::BITS - x.leading_zeros() + 7) / 8, $len, $max)
        }
    )*};
}
vars!(store_var24 tycho_types::num::VarUint24, u32, 2, 3; store_var56 tycho_types::num::VarUint56, u64, 3, 7; store_tokens tycho_types::num::Tokens, u128, 4, 15);

#[macro_export]
macro_rules! with_tape {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_zeros, tape::store_zeros)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_zero, tape::store_bit_zero)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_one, tape::store_bit_one)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit, tape::store_bit)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u8, tape::store_u8)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u16, tape::store_u16)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u32, tape::store_u32)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u64, tape::store_u64)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u128, tape::store_u128)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u256, tape::store_u256)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_raw, tape::store_raw)]
        $(#[$a])*
        fn $name() $body
    };
}

/// Stubs for both directions.
#[macro_export]
macro_rules! with_tapes {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_zeros, tape::store_zeros)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_zero, tape::store_bit_zero)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit_one, tape::store_bit_one)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_bit, tape::store_bit)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u8, tape::store_u8)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u16, tape::store_u16)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u32, tape::store_u32)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u64, tape::store_u64)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u128, tape::store_u128)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_u256, tape::store_u256)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_raw, tape::store_raw)]
        #[kani::stub(tycho_types::cell::CellSlice::get_bit, rtape::get_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::load_bit, rtape::load_bit)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u8, rtape::get_u8)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u8, rtape::load_u8)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u16, rtape::get_u16)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u16, rtape::load_u16)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u32, rtape::get_u32)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u32, rtape::load_u32)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u64, rtape::get_u64)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u64, rtape::load_u64)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u128, rtape::get_u128)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u128, rtape::load_u128)]
        #[kani::stub(tycho_types::cell::CellSlice::get_u256, rtape::get_u256)]
        #[kani::stub(tycho_types::cell::CellSlice::load_u256, rtape::load_u256)]
        #[kani::stub(tycho_types::cell::CellSlice::get_small_uint, rtape::get_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_small_uint, rtape::load_small_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::get_uint, rtape::get_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::load_uint, rtape::load_uint)]
        #[kani::stub(tycho_types::cell::CellSlice::get_raw, rtape::get_raw)]
        #[kani::stub(tycho_types::cell::CellSlice::load_raw, rtape::load_raw)]
        #[kani::stub(<tycho_types::num::VarUint24 as tycho_types::cell::Store>::store_into, tape::store_var24)]
        #[kani::stub(<tycho_types::num::VarUint56 as tycho_types::cell::Store>::store_into, tape::store_var56)]
        #[kani::stub(<tycho_types::num::Tokens as tycho_types::cell::Store>::store_into, tape::store_tokens)]
        #[kani::stub(<tycho_types::num::VarUint24 as tycho_types::cell::Load>::load_from, rtape::load_var24)]
        #[kani::stub(<tycho_types::num::VarUint56 as tycho_types::cell::Load>::load_from, rtape::load_var56)]
        #[kani::stub(<tycho_types::num::Tokens as tycho_types::cell::Load>::load_from, rtape::load_tokens)]
        $(#[$a])*
        fn $name() $body
    };
}
