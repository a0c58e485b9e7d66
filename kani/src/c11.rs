//! C11: fixed and variable length integers.
use crate::tape::{self, append, Tape};
use crate::util::*;
use std::mem::ManuallyDrop;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::num::*;

macro_rules! arith {
    ($name:ident, $t:ty, $i:ty, $bits:literal) => {
        #[kani::proof]
        fn $name() {
            let max: $i = ((1u128 << $bits) - 1) as $i;
            assert!(<$t>::MAX.into_inner() == max && <$t>::MIN.into_inner() == 0, "bounds");
            assert!(<$t>::ZERO.into_inner() == 0 && <$t>::ONE.into_inner() == 1, "constants");
            let (x, y): ($i, $i) = kani::any();
            let (a, b) = (<$t>::new(x), <$t>::new(y));
            assert!(a.is_valid() == (x <= max), "validity");
            assert!(a.is_zero() == (x == 0), "is_zero");
            assert!((a < b) == (x < y) && (a == b) == (x == y), "numeric order");
            match <$t>::try_from(x) {
                Ok(v) => assert!(x <= max && v.into_inner() == x, "try_from keeps the value"),
                Err(_) => assert!(x > max, "try_from refuses only what does not fit"),
            }
            kani::assume(x <= max && y <= max);
            let fit = |v: Option<$i>| v.filter(|v| *v <= max);
            let add = fit(x.checked_add(y));
            let sub = fit(x.checked_sub(y));
            kani::cover!(add.is_none());
            kani::cover!(add.is_some());
            assert!(a.checked_add(b).map(|v| v.into_inner()) == add, "checked_add is exact or None");
            assert!(a.checked_sub(b).map(|v| v.into_inner()) == sub, "checked_sub is exact or None");
            assert!(a.saturating_add(b).into_inner() == add.unwrap_or(max), "saturating_add");
            assert!(a.saturating_sub(b).into_inner() == sub.unwrap_or(0), "saturating_sub");
        }
    };
}
//@ C11 quick complete | VarUint24: MIN, MAX, is_valid, is_zero, cmp, try_from, checked_/saturating_ add and sub | all pairs | c11_arith_var24
arith!(c11_arith_var24, VarUint24, u32, 24);
//@ C11 quick complete | VarUint56: the same | all pairs | c11_arith_var56
arith!(c11_arith_var56, VarUint56, u64, 56);
//@ C11 quick complete | Tokens: the same | all pairs | c11_arith_tokens
arith!(c11_arith_tokens, Tokens, u128, 120);
//@ C11 quick complete | Uint9: the same | all pairs | c11_arith_u9
arith!(c11_arith_u9, Uint9, u16, 9);
//@ C11 quick complete | Uint12: the same | all pairs | c11_arith_u12
arith!(c11_arith_u12, Uint12, u16, 12);
//@ C11 quick complete | Uint15: the same | all pairs | c11_arith_u15
arith!(c11_arith_u15, Uint15, u16, 15);

macro_rules! muldiv {
    ($name:ident, $t:ty, $i:ty, $bits:literal, $rhs:expr) => {
        #[kani::proof]
        #[kani::solver(z3)]
        fn $name() {
            let max: $i = ((1u128 << $bits) - 1) as $i;
            let x: $i = kani::any();
            let y: $i = $rhs;
            let (a, b) = (<$t>::new(x), <$t>::new(y));
            kani::assume(x <= max && y <= max);
            let fit = |v: Option<$i>| v.filter(|v| *v <= max);
            let mul = fit(x.checked_mul(y));
            let div = fit(x.checked_div(y));
            kani::cover!(mul.is_none());
            kani::cover!(mul.is_some() && y > 1);
            assert!(a.checked_mul(b).map(|v| v.into_inner()) == mul, "checked_mul is exact or None");
            assert!(a.checked_div(b).map(|v| v.into_inner()) == div, "checked_div is exact or None");
            assert!(a.saturating_mul(b).into_inner() == mul.unwrap_or(max), "saturating_mul");
        }
    };
}
//@ C11 quick complete | Uint9: checked_mul, checked_div, saturating_mul | all pairs | c11_muldiv_u9
muldiv!(c11_muldiv_u9, Uint9, u16, 9, kani::any());
//@ C11 quick complete | Uint12: the same | all pairs | c11_muldiv_u12
muldiv!(c11_muldiv_u12, Uint12, u16, 12, kani::any());
//@ C11 quick complete | Uint15: the same | all pairs | c11_muldiv_u15
muldiv!(c11_muldiv_u15, Uint15, u16, 15, kani::any());
//@ C11 quick complete | VarUint24: the same | all pairs | c11_muldiv_var24
muldiv!(c11_muldiv_var24, VarUint24, u32, 24, kani::any());
//@ C11 quick complete | VarUint56: the same | all pairs | c11_muldiv_var56
muldiv!(c11_muldiv_var56, VarUint56, u64, 56, kani::any());
//@ C11 quick complete | Tokens: the same | all pairs | c11_muldiv_tokens
muldiv!(c11_muldiv_tokens, Tokens, u128, 120, kani::any());

macro_rules! assign {
    ($name:ident, $t:ty, $i:ty) => {
        #[kani::proof]
        #[kani::solver(z3)]
        fn $name() {
            let a = <$t>::new(kani::any());
            let b = <$t>::new(kani::any());
            let mut c = a;
            let (r, s) = match kani::any::<u8>() {
                0 => (c.try_add_assign(b), a.checked_add(b)),
                1 => (c.try_sub_assign(b), a.checked_sub(b)),
                2 => (c.try_mul_assign(b), a.checked_mul(b)),
                _ => (c.try_div_assign(b), a.checked_div(b)),
            };
            kani::cover!(r.is_ok());
            kani::cover!(r.is_err());
            match (r, s) {
                (Ok(()), Some(v)) => assert!(c == v, "the result is assigned"),
                (Err(e), None) => {
                    assert!(c == a, "the value is kept on overflow");
                    assert!(matches!(e, Error::IntOverflow));
                }
                _ => assert!(false, "try_*_assign agrees with checked_*"),
            }
        }
    };
}
//@ C11 quick complete | VarUint24::try_{add,sub,mul,div}_assign | all pairs | c11_assign_var24
assign!(c11_assign_var24, VarUint24, u32);
//@ C11 quick complete | VarUint56::try_{add,sub,mul,div}_assign | all pairs | c11_assign_var56
assign!(c11_assign_var56, VarUint56, u64);
//@ C11 quick complete | Tokens::try_{add,sub,mul,div}_assign | all pairs | c11_assign_tokens
assign!(c11_assign_tokens, Tokens, u128);

/// Number of bytes of the minimal big-endian representation.
fn min_bytes(hi: u128, lo: u128) -> u16 {
    let lz = if hi == 0 { 128 + lo.leading_zeros() } else { hi.leading_zeros() };
    ((256 - lz + 7) / 8) as u16
}

/// An empty builder whose destructor is never run (it holds no references).
fn empty() -> ManuallyDrop<CellBuilder> {
    ManuallyDrop::new(CellBuilder::new())
}
/// A builder with an arbitrary number of (zero) bits.
fn filled(n: u16) -> ManuallyDrop<CellBuilder> {
    ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], n)))
}

macro_rules! codec {
    ($store:ident, $full:ident, $load:ident, $t:ty, $i:ty, $lenbits:literal, $bytes:literal) => {
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
        fn $store() {
            let x: $i = kani::any();
            let v = <$t>::new(x);
            let mut b = empty();
            let r = v.store_into(&mut b, &NoCtx);
            let n = min_bytes(0, x as u128);
            let valid = n <= $bytes;
            assert!(valid == v.is_valid());
            assert!(v.bit_len() == if valid { Some($lenbits + 8 * n) } else { None }, "advertised length");
            assert!(v.unwrap_bit_len() == if valid { $lenbits + 8 * n } else { $lenbits + 8 * $bytes }, "unwrap_bit_len");
            assert!(v.exact_size().bits == v.bit_len().unwrap_or_default() && v.exact_size().refs == 0, "advertised size");
            assert!(<$t>::LEN_BITS == $lenbits && <$t>::MAX_BITS == $lenbits + 8 * $bytes, "constants");
            assert!(r.is_ok() == valid, "every valid value is stored, an invalid one is refused");
            kani::cover!(valid);
            kani::cover!(!valid);
            if !valid {
                assert!(b.size_bits() == 0 && Tape::len() == 0, "nothing is written on error");
                return;
            }
            assert!(b.size_bits() == $lenbits + 8 * n && Tape::len() == b.size_bits() as u32, "minimal length");
            let spec = append(append(tape::ZERO, n as u128, $lenbits), x as u128, 8 * n as u32);
            assert!(tape::is(Tape::words(), spec), "length prefix, then the value bytes");
        }
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
        fn $full() {
            let x: $i = kani::any();
            let v = <$t>::new(x);
            let n: u16 = kani::any();
            kani::assume(n >= 860 && n <= 1023);
            let mut b = filled(n);
            let r = v.store_into(&mut b, &NoCtx);
            let fits = v.is_valid() && n + $lenbits + 8 * min_bytes(0, x as u128) <= 1023;
            kani::cover!(fits);
            kani::cover!(!fits);
            assert!(r.is_ok() == fits, "refused exactly when there is no room");
            if !fits {
                assert!(b.size_bits() == n && Tape::len() == 0, "the builder is unchanged on error");
            }
        }
        #[kani::proof]
        #[kani::unwind(20)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $load() {
            const N: usize = $bytes + 2;
            let c = TCell::<N>::any_data();
            let (s, e): (u16, u16) = (3, kani::any());
            kani::assume(s <= e && e <= c.bits);
            let mut cs = CellSliceRange::verif_from_parts(s, e, 0, 0).apply_allow_exotic(c.as_dyn());
            let r = <$t>::load_from(&mut cs);
            let mut n = 0u16;
            let mut i = 0;
            while i < $lenbits {
                n = n * 2 + (s + i < c.bits && c.bit(s + i)) as u16;
                i += 1;
            }
            let fits = s + $lenbits <= e && s + $lenbits + 8 * n <= e;
            kani::cover!(fits);
            kani::cover!(!fits);
            assert!(r.is_ok() == fits, "decoded exactly when all the announced bytes are there");
            if let Ok(v) = r {
                assert!(v.is_valid(), "a decoded value is in range");
                assert!(cs.offset_bits() == s + $lenbits + 8 * n, "consumes prefix and bytes");
                let k: u16 = kani::any();
                kani::assume(k < 128);
                let spec = k < 8 * n && c.bit(s + $lenbits + 8 * n - 1 - k);
                assert!(((v.into_inner() as u128) >> k) & 1 == spec as u128, "value of the bytes");
            }
        }
    };
}
//@ C11 quick complete | VarUint24: Store, bit_len, unwrap_bit_len, ExactSize | all values, empty builder | c11_store_var24
//@ C11 quick complete | VarUint24: Store (room) | all values, any fill | c11_full_var24
//@ C11 quick complete | VarUint24: Load | any cell data, any window | c11_load_var24
codec!(c11_store_var24, c11_full_var24, c11_load_var24, VarUint24, u32, 2, 3);
//@ C11 quick complete | VarUint56: Store, bit_len, unwrap_bit_len, ExactSize | all values, empty builder | c11_store_var56
//@ C11 quick complete | VarUint56: Store (room) | all values, any fill | c11_full_var56
//@ C11 quick complete | VarUint56: Load | any cell data, any window | c11_load_var56
codec!(c11_store_var56, c11_full_var56, c11_load_var56, VarUint56, u64, 3, 7);
//@ C11 quick complete | Tokens: Store, bit_len, unwrap_bit_len, ExactSize | all values, empty builder | c11_store_tokens
//@ C11 quick complete | Tokens: Store (room) | all values, any fill | c11_full_tokens
//@ C11 quick complete | Tokens: Load | any cell data, any window | c11_load_tokens
codec!(c11_store_tokens, c11_full_tokens, c11_load_tokens, Tokens, u128, 4, 15);

macro_rules! small {
    ($name:ident, $load:ident, $t:ty, $bits:literal) => {
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
        #[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
        fn $name() {
            let x: u16 = kani::any();
            let v = <$t>::new(x);
            let n: u16 = kani::any();
            kani::assume(n <= 1023);
            let mut b = filled(n);
            let r = v.store_into(&mut b, &NoCtx);
            let fits = n + $bits <= 1023;
            kani::cover!(fits);
            kani::cover!(!fits);
            if v.is_valid() && fits {
                assert!(r.is_ok() && b.size_bits() == n + $bits && Tape::len() == $bits, "fixed width");
                assert!(tape::is_small(Tape::words(), x as u128), "value bits");
            } else {
                assert!(r.is_err(), "a value out of range or without room is refused");
                assert!(v.is_valid() || matches!(r, Err(Error::IntOverflow)));
                assert!(b.size_bits() == n && Tape::len() == 0, "the builder is unchanged on error");
            }
            assert!(v.exact_size() == Size { bits: $bits, refs: 0 }, "advertised size");
        }
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $load() {
            let c = TCell::<4>::any_data();
            let range = any_range(c.bits);
            let (s, e, _, _) = range.verif_parts();
            let mut cs = range.apply_allow_exotic(c.as_dyn());
            let r = <$t>::load_from(&mut cs);
            kani::cover!(r.is_ok());
            assert!(r.is_ok() == (s + $bits <= e));
            if let Ok(v) = r {
                assert!(v.is_valid(), "a decoded value is in range");
                let k: u16 = kani::any();
                kani::assume(k < 16);
                let spec = k < $bits && c.bit(s + $bits - 1 - k);
                assert!((v.into_inner() >> k) & 1 == spec as u16, "value of the bits");
                assert!(cs.offset_bits() == s + $bits);
            }
        }
    };
}
//@ C11 quick complete | Uint9: Store, ExactSize | all values, any fill | c11_store_u9
//@ C11 quick complete | Uint9: Load | any cell data, any window | c11_load_u9
small!(c11_store_u9, c11_load_u9, Uint9, 9);
//@ C11 quick complete | Uint12: Store, ExactSize | all values, any fill | c11_store_u12
//@ C11 quick complete | Uint12: Load | any cell data, any window | c11_load_u12
small!(c11_store_u12, c11_load_u12, Uint12, 12);
//@ C11 quick complete | Uint15: Store, ExactSize | all values, any fill | c11_store_u15
//@ C11 quick complete | Uint15: Load | any cell data, any window | c11_load_u15
small!(c11_store_u15, c11_load_u15, Uint15, 15);

//@ C11 quick complete | SplitDepth: new, from_bit_len, into_bit_len, Store, Load | all values
#[kani::proof]
#[kani::unwind(10)]
fn c11_split_depth() {
    let x: u8 = kani::any();
    let r = SplitDepth::new(x);
    assert!(r.is_ok() == (x >= 1 && x <= 30), "range 1..=30");
    let w: u16 = kani::any();
    let rw = SplitDepth::from_bit_len(w);
    assert!(rw.is_ok() == (w >= 1 && w <= 30), "range 1..=30");
    if let Ok(v) = rw {
        assert!(v.into_bit_len() == w);
    }
    if let Ok(v) = r {
        assert!(v.into_bit_len() == x as u16);
        let mut b = empty();
        assert!(v.store_into(&mut b, &NoCtx).is_ok());
        assert!(b.size_bits() == 5 && b.raw_data()[0] == x << 3, "five bits");
        assert!(v.exact_size() == Size { bits: 5, refs: 0 });
    }
    let c = TCell::<2>::any_data();
    let range = any_range(c.bits);
    let (s, e, _, _) = range.verif_parts();
    let mut cs = range.apply_allow_exotic(c.as_dyn());
    let word = u16::from_be_bytes(c.data);
    let spec = if s + 5 <= e { Some((((word << s) >> 11) & 31) as u8) } else { None };
    match SplitDepth::load_from(&mut cs) {
        Ok(v) => assert!(spec == Some(v.into_bit_len() as u8) && cs.offset_bits() == s + 5),
        Err(_) => assert!(spec.is_none() || spec == Some(0) || spec == Some(31)),
    }
}

// ---- 248 bits ----

fn any248() -> (VarUint248, u128, u128) {
    let (hi, lo): (u128, u128) = kani::any();
    (VarUint248::from_words(hi, lo), hi, lo)
}
const MAX_HI: u128 = u128::MAX >> 8;
fn bit256(hi: u128, lo: u128, k: u32) -> bool {
    if k >= 256 {
        false
    } else if k >= 128 {
        (hi >> (k - 128)) & 1 == 1
    } else {
        (lo >> k) & 1 == 1
    }
}

//@ C11 quick complete | VarUint248: constants, is_valid, is_zero, leading_zeros, cmp, checked_/saturating_add, Add | all pairs
#[kani::proof]
fn c11_arith_248() {
    assert!(VarUint248::MAX.into_words() == (MAX_HI, u128::MAX));
    assert!(VarUint248::MIN.into_words() == (0, 0) && VarUint248::ZERO.into_words() == (0, 0));
    assert!(VarUint248::ONE.into_words() == (0, 1));
    let (a, ah, al) = any248();
    let (b, bh, bl) = any248();
    assert!(a.into_words() == (ah, al));
    assert!(a.is_valid() == (ah <= MAX_HI), "validity");
    assert!(a.is_zero() == (ah == 0 && al == 0));
    let lt = ah < bh || (ah == bh && al < bl);
    assert!((a < b) == lt && (a == b) == (ah == bh && al == bl), "numeric order");
    assert!((a > b) == (!lt && a != b));
    kani::assume(ah <= MAX_HI && bh <= MAX_HI);
    // spec: schoolbook addition on the two words (no overflow of 256 bits here)
    let (sl, c) = al.overflowing_add(bl);
    let sh = ah + bh + c as u128;
    let fits = sh <= MAX_HI;
    kani::cover!(fits);
    kani::cover!(!fits);
    match a.checked_add(&b) {
        Some(v) => assert!(fits && v.into_words() == (sh, sl), "checked_add is exact"),
        None => assert!(!fits, "checked_add is None only when out of range"),
    }
    assert!(a.saturating_add(&b).into_words() == if fits { (sh, sl) } else { (MAX_HI, u128::MAX) });
    assert!((a + b).into_words() == (sh, sl), "addition");
    let mut x = a;
    x += &b;
    assert!(x.into_words() == (sh, sl), "addition");
}

//@ C11 quick complete | VarUint248: checked_sub, saturating_sub, Sub | all pairs
#[kani::proof]
fn c11_sub_248() {
    let (a, ah, al) = any248();
    let (b, bh, bl) = any248();
    kani::assume(ah <= MAX_HI && bh <= MAX_HI);
    let lt = ah < bh || (ah == bh && al < bl);
    let (dl, w) = al.overflowing_sub(bl);
    match a.checked_sub(&b) {
        Some(v) => assert!(!lt && v.into_words() == (ah - bh - w as u128, dl), "checked_sub is exact"),
        None => assert!(lt, "checked_sub is None only when negative"),
    }
    if !lt {
        assert!(a.saturating_sub(&b) == a - b && (a - b).into_words() == (ah - bh - w as u128, dl));
    } else {
        assert!(a.saturating_sub(&b).is_zero());
    }
}

//@ C11 quick complete | VarUint248: Shl, Shr | all values, all shifts below 256
#[kani::proof]
fn c11_shift_248() {
    let (a, ah, al) = any248();
    let n: u32 = kani::any();
    kani::assume(n < 256);
    let k: u32 = kani::any();
    kani::assume(k < 256);
    let (lh, ll) = (a << n).into_words();
    assert!(bit256(lh, ll, k) == (k >= n && bit256(ah, al, k - n)), "left shift");
    let (rh, rl) = (a >> n).into_words();
    assert!(bit256(rh, rl, k) == bit256(ah, al, k + n), "right shift");
}

//@ C11 quick complete | VarUint248: Store, bit_len, leading_zeros, ExactSize | all values, any builder fill
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
fn c11_store_248() {
    let (v, hi, lo) = any248();
    let fill: u16 = kani::any();
    kani::assume(fill <= 1023);
    let mut b = filled(fill);
    let r = v.store_into(&mut b, &NoCtx);
    let n = min_bytes(hi, lo);
    let valid = n <= 31;
    let fits = fill + 5 + 8 * n <= 1023;
    assert!(v.bit_len() == if valid { Some(5 + 8 * n) } else { None }, "advertised length");
    assert!(v.exact_size() == Size { bits: v.bit_len().unwrap_or_default(), refs: 0 });
    assert!(r.is_ok() == (valid && fits), "every valid value is stored when there is room");
    kani::cover!(valid && fits);
    kani::cover!(valid && !fits);
    kani::cover!(!valid);
    if r.is_err() {
        assert!(b.size_bits() == fill && Tape::len() == 0, "nothing is written on error");
        return;
    }
    assert!(b.size_bits() == fill + 5 + 8 * n && Tape::len() == 5 + 8 * n as u32, "minimal length");
    let mut spec = append(tape::ZERO, n as u128, 5);
    if n > 16 {
        spec = append(spec, hi, 8 * n as u32 - 128);
    }
    spec = append(spec, lo, if n > 16 { 128 } else { 8 * n as u32 });
    assert!(tape::is(Tape::words(), spec), "length prefix, then the value bytes");
}

//@ C11 quick complete | VarUint248: Load | any cell data, any window
#[kani::proof]
#[kani::unwind(34)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c11_load_248() {
    let c = TCell::<33>::any_data();
    let (s, e): (u16, u16) = (3, kani::any());
    kani::assume(s <= e && e <= c.bits);
    let mut cs = CellSliceRange::verif_from_parts(s, e, 0, 0).apply_allow_exotic(c.as_dyn());
    let r = VarUint248::load_from(&mut cs);
    let n = ((u16::from_be_bytes([c.data[0], c.data[1]]) << s) >> 11) & 31;
    let fits = s + 5 <= e && s + 5 + 8 * n <= e;
    kani::cover!(fits);
    kani::cover!(!fits);
    assert!(r.is_ok() == fits, "decoded exactly when all the announced bytes are there");
    if let Ok(v) = r {
        assert!(v.is_valid(), "a decoded value is in range");
        assert!(cs.offset_bits() == s + 5 + 8 * n, "consumes prefix and bytes");
        let k: u16 = kani::any();
        kani::assume(k < 256);
        let (hi, lo) = v.into_words();
        let spec = k < 8 * n && c.bit(s + 5 + 8 * n - 1 - k);
        assert!(bit256(hi, lo, k as u32) == spec, "value of the bytes");
    }
}
