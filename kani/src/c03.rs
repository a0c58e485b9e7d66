//! C03: reading from a cell slice.
use crate::util::*;
use tycho_types::cell::*;
use tycho_types::error::Error;

fn check_err(e: Error) {
    assert!(matches!(e, Error::CellUnderflow), "underflow is reported as CellUnderflow");
}

/// Contract of `load`: same result as reading at offset 0; on success the window
/// start moves by exactly `n`, on failure the slice is unchanged.
fn check_window(before: CellSliceRange, after: CellSliceRange, ok: bool, n: u16) {
    let (s, e, rs, re) = before.verif_parts();
    let (s2, e2, rs2, re2) = after.verif_parts();
    assert!(e2 == e && rs2 == rs && re2 == re, "only the start of the data window moves");
    if ok {
        assert!(s2 as u32 == s as u32 + n as u32, "the window advances by exactly the bits read");
    } else {
        assert!(s2 == s, "a failed read leaves the slice unchanged");
    }
}

macro_rules! get_int {
    ($g:ident, $l:ident, $get:ident, $load:ident, $t:ty, $n:literal) => {
        #[kani::proof]
        #[kani::unwind(35)]
        fn $g() {
            let c = TCell::<128>::any_data();
            let range = any_range(c.bits);
            let cs = range.apply_allow_exotic(dynref(&c));
            let off: u16 = kani::any();
            let (s, e, _, _) = range.verif_parts();
            let fits = s as u32 + off as u32 + $n <= e as u32;
            kani::cover!(fits);
            match cs.$get(off) {
                Ok(v) => {
                    assert!(fits, "never reads past the window");
                    let v: $t = v;
                    let k: u16 = kani::any();
                    kani::assume(k < $n);
                    assert!(((v >> ($n - 1 - k)) & 1 == 1) == bit(&c.data, (s + off + k) as usize), "bit of the value");
                }
                Err(e) => {
                    assert!(!fits, "reads everything inside the window");
                    check_err(e);
                }
            }
        }
        #[kani::proof]
        #[kani::unwind(35)]
        fn $l() {
            let c = TCell::<128>::any_data();
            let range = any_range(c.bits);
            let mut cs = range.apply_allow_exotic(dynref(&c));
            let (s, e, _, _) = range.verif_parts();
            let fits = s as u32 + $n <= e as u32;
            kani::cover!(fits);
            let r = cs.$load();
            check_window(range, cs.range(), r.is_ok(), $n);
            match r {
                Ok(v) => {
                    assert!(fits, "never reads past the window");
                    let v: $t = v;
                    let k: u16 = kani::any();
                    kani::assume(k < $n);
                    assert!(((v >> ($n - 1 - k)) & 1 == 1) == bit(&c.data, (s + k) as usize), "bit of the value");
                }
                Err(e) => {
                    assert!(!fits, "reads everything inside the window");
                    check_err(e);
                }
            }
        }
    };
}
//@ C03 quick complete | CellSlice::get_u8 | any cell data, any window, any offset | c03_get_u8
//@ C03 quick complete | CellSlice::load_u8 | any cell data, any window | c03_load_u8
get_int!(c03_get_u8, c03_load_u8, get_u8, load_u8, u8, 8);
//@ C03 quick complete | CellSlice::get_u16 | any cell data, any window, any offset | c03_get_u16
//@ C03 quick complete | CellSlice::load_u16 | any cell data, any window | c03_load_u16
get_int!(c03_get_u16, c03_load_u16, get_u16, load_u16, u16, 16);
//@ C03 quick complete | CellSlice::get_u32 | any cell data, any window, any offset | c03_get_u32
//@ C03 quick complete | CellSlice::load_u32 | any cell data, any window | c03_load_u32
get_int!(c03_get_u32, c03_load_u32, get_u32, load_u32, u32, 32);
//@ C03 quick complete | CellSlice::get_u64 | any cell data, any window, any offset | c03_get_u64
//@ C03 quick complete | CellSlice::load_u64 | any cell data, any window | c03_load_u64
get_int!(c03_get_u64, c03_load_u64, get_u64, load_u64, u64, 64);
//@ C03 quick complete | CellSlice::get_u128 | any cell data, any window, any offset | c03_get_u128
//@ C03 quick complete | CellSlice::load_u128 | any cell data, any window | c03_load_u128
get_int!(c03_get_u128, c03_load_u128, get_u128, load_u128, u128, 128);

//@ C03 quick complete | CellSlice::get_bit | any cell data, any window, any offset
#[kani::proof]
fn c03_get_bit() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let cs = range.apply_allow_exotic(dynref(&c));
    let off: u16 = kani::any();
    let (s, e, _, _) = range.verif_parts();
    let fits = s as u32 + (off as u32) < e as u32;
    kani::cover!(fits);
    match cs.get_bit(off) {
        Ok(v) => {
            assert!(fits);
            assert!(v == bit(&c.data, (s + off) as usize));
        }
        Err(e) => {
            assert!(!fits);
            check_err(e);
        }
    }
}
//@ C03 quick complete | CellSlice::load_bit | any cell data, any window
#[kani::proof]
fn c03_load_bit() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let mut cs = range.apply_allow_exotic(dynref(&c));
    let exp = cs.get_bit(0);
    let r = cs.load_bit();
    check_window(range, cs.range(), r.is_ok(), 1);
    assert!(r == exp);
}

//@ C03 quick complete | CellSlice::get_u256 | any cell data, any window, any offset
#[kani::proof]
#[kani::unwind(35)]
fn c03_get_u256() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let cs = range.apply_allow_exotic(dynref(&c));
    let off: u16 = kani::any();
    let (s, e, _, _) = range.verif_parts();
    let fits = s as u32 + off as u32 + 256 <= e as u32;
    kani::cover!(fits);
    match cs.get_u256(off) {
        Ok(v) => {
            assert!(fits, "never reads past the window");
            let k: u16 = kani::any();
            kani::assume(k < 256);
            assert!(bit(&v.0, k as usize) == bit(&c.data, (s + off + k) as usize), "bit of the value");
        }
        Err(e) => {
            assert!(!fits, "reads everything inside the window");
            check_err(e);
        }
    }
}
//@ C03 quick complete | CellSlice::load_u256 | any cell data, any window
#[kani::proof]
#[kani::unwind(35)]
fn c03_load_u256() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let mut cs = range.apply_allow_exotic(dynref(&c));
    let (s, e, _, _) = range.verif_parts();
    let fits = s as u32 + 256 <= e as u32;
    kani::cover!(fits);
    let r = cs.load_u256();
    check_window(range, cs.range(), r.is_ok(), 256);
    match r {
        Ok(v) => {
            assert!(fits, "never reads past the window");
            let k: u16 = kani::any();
            kani::assume(k < 256);
            assert!(bit(&v.0, k as usize) == bit(&c.data, (s + k) as usize), "bit of the value");
        }
        Err(e) => {
            assert!(!fits, "reads everything inside the window");
            check_err(e);
        }
    }
}

//@ C03 quick complete | CellSlice::get_small_uint | any cell data, any window, any offset and width
#[kani::proof]
fn c03_get_small_uint() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let cs = range.apply_allow_exotic(dynref(&c));
    let off: u16 = kani::any();
    let n: u16 = kani::any();
    let (s, e, _, _) = range.verif_parts();
    let fits = n == 0 || (n <= 8 && s as u32 + off as u32 + n as u32 <= e as u32);
    kani::cover!(fits && n > 0);
    match cs.get_small_uint(off, n) {
        Ok(v) => {
            assert!(fits);
            let j: u16 = kani::any();
            kani::assume(j < 8);
            let b = (v >> j) & 1 == 1;
            assert!(b == (j < n && bit(&c.data, (s + off + (n - 1 - j)) as usize)));
        }
        Err(e) => {
            assert!(!fits);
            check_err(e);
        }
    }
}
//@ C03 quick complete | CellSlice::load_small_uint | any cell data, any window, any width
#[kani::proof]
fn c03_load_small_uint() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let mut cs = range.apply_allow_exotic(dynref(&c));
    let n: u16 = kani::any();
    let exp = cs.get_small_uint(0, n);
    let r = cs.load_small_uint(n);
    check_window(range, cs.range(), r.is_ok(), n);
    assert!(r == exp);
}

//@ C03 quick complete | CellSlice::get_uint | any cell data, any window, any offset and width
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c03_get_uint() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let cs = range.apply_allow_exotic(dynref(&c));
    let off: u16 = kani::any();
    let n: u16 = kani::any();
    let (s, e, _, _) = range.verif_parts();
    let fits = n == 0 || (n <= 64 && s as u32 + off as u32 + n as u32 <= e as u32);
    kani::cover!(fits && n > 0);
    match cs.get_uint(off, n) {
        Ok(v) => {
            assert!(fits);
            let j: u16 = kani::any();
            kani::assume(j < 64);
            let b = (v >> j) & 1 == 1;
            assert!(b == (j < n && bit(&c.data, (s + off + (n - 1 - j)) as usize)));
        }
        Err(e) => {
            assert!(!fits);
            check_err(e);
        }
    }
}
//@ C03 quick complete | CellSlice::load_uint | any cell data, any window, any width
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c03_load_uint() {
    let c = TCell::<128>::any_data();
    let range = any_range(c.bits);
    let mut cs = range.apply_allow_exotic(dynref(&c));
    let n: u16 = kani::any();
    let exp = cs.get_uint(0, n);
    let r = cs.load_uint(n);
    check_window(range, cs.range(), r.is_ok(), n);
    assert!(r == exp);
}

macro_rules! get_raw {
    ($g:ident, $max:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $g() {
            let c = TCell::<128>::any_data();
            let range = any_range(c.bits);
            let mut cs = range.apply_allow_exotic(dynref(&c));
            let n: u16 = kani::any();
            let mut target: [u8; $max] = kani::any();
            let orig = target;
            let tlen: usize = kani::any();
            kani::assume(tlen <= $max);
            let load: bool = kani::any();
            let off: u16 = if load { 0 } else { kani::any() };
            let (s, e, _, _) = range.verif_parts();
            let nb = (n as usize + 7) / 8;
            let fits = n == 0 || (nb <= tlen && s as u32 + off as u32 + n as u32 <= e as u32);
            kani::cover!(fits && n > 0);
            let r = if load {
                cs.load_raw(&mut target[..tlen], n)
            } else {
                cs.get_raw(off, &mut target[..tlen], n)
            };
            let ok = match r {
                Ok(v) => {
                    assert!(fits, "never reads past the window or the target");
                    assert!(v.len() == nb, "returns exactly the bytes that hold the bits");
                    let k: usize = kani::any();
                    kani::assume(k < v.len() * 8);
                    let b = bit(v, k);
                    if k < n as usize {
                        assert!(b == bit(&c.data, (s + off) as usize + k), "bit of the value");
                    } else {
                        assert!(!b, "padding bits are zero");
                    }
                    true
                }
                Err(e) => {
                    assert!(!fits, "reads everything inside the window");
                    check_err(e);
                    false
                }
            };
            let k: usize = kani::any();
            kani::assume(k < $max && k >= nb);
            assert!(target[k] == orig[k], "bytes past the result are untouched");
            check_window(range, cs.range(), ok && load, n);
        }
    };
}
//@ C03 quick bounded | CellSlice::get_raw, load_raw | any cell data, any window, any offset; targets of at most 9 bytes | c03_get_raw_9
get_raw!(c03_get_raw_9, 9, 11);
//@ C03 thorough bounded | CellSlice::get_raw, load_raw | any cell data, any window, any offset; targets of at most 40 bytes | c03_get_raw_40
get_raw!(c03_get_raw_40, 40, 42);
//@ C03 thorough complete | CellSlice::get_raw, load_raw | any cell data, any window, any offset; targets of at most 128 bytes (a cell has no more) | c03_get_raw_128
get_raw!(c03_get_raw_128, 128, 130);
