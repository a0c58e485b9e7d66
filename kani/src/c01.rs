//! C01: appending to a cell builder.
use crate::util::*;
use tycho_types::cell::*;

//@ C01 quick complete | CellDataBuilder::store_bit_zero, store_bit_one, store_bit | any builder, any bit
#[kani::proof]
#[kani::unwind(34)]
fn c01_store_bit() {
    let old = any_builder();
    let mut b = old.clone();
    let v: bool = kani::any();
    let r = match kani::any::<u8>() {
        0 => b.store_bit(v),
        1 => {
            kani::assume(v);
            b.store_bit_one()
        }
        _ => {
            kani::assume(!v);
            b.store_bit_zero()
        }
    };
    check_store(&old, &b, r, 1, |_| v);
}

//@ C01 quick complete | CellDataBuilder::store_zeros | any builder, any u16 length
#[kani::proof]
#[kani::unwind(34)]
fn c01_store_zeros() {
    let old = any_builder();
    let mut b = old.clone();
    let n: u16 = kani::any();
    let r = b.store_zeros(n);
    check_store(&old, &b, r, n, |_| false);
}

macro_rules! store_int {
    ($name:ident, $m:ident, $t:ty, $n:literal) => {
        #[kani::proof]
        #[kani::unwind(34)]
        fn $name() {
            let old = any_builder();
            let mut b = old.clone();
            let v: $t = kani::any();
            let r = b.$m(v);
            check_store(&old, &b, r, $n, |k| (v >> ($n - 1 - k)) & 1 == 1);
        }
    };
}
//@ C01 quick complete | CellDataBuilder::store_u8 | any builder, any value | c01_store_u8
store_int!(c01_store_u8, store_u8, u8, 8);
//@ C01 quick complete | CellDataBuilder::store_u16 | any builder, any value | c01_store_u16
store_int!(c01_store_u16, store_u16, u16, 16);
//@ C01 quick complete | CellDataBuilder::store_u32 | any builder, any value | c01_store_u32
store_int!(c01_store_u32, store_u32, u32, 32);
//@ C01 quick complete | CellDataBuilder::store_u64 | any builder, any value | c01_store_u64
store_int!(c01_store_u64, store_u64, u64, 64);
//@ C01 quick complete | CellDataBuilder::store_u128 | any builder, any value | c01_store_u128
store_int!(c01_store_u128, store_u128, u128, 128);

//@ C01 quick complete | CellDataBuilder::store_u256 | any builder, any value
#[kani::proof]
#[kani::unwind(34)]
fn c01_store_u256() {
    let old = any_builder();
    let mut b = old.clone();
    let v: [u8; 32] = kani::any();
    let r = b.store_u256(&HashBytes(v));
    check_store(&old, &b, r, 256, |k| bit(&v, k as usize));
}

//@ C01 quick complete | CellDataBuilder::store_small_uint | any builder, any value, any width
#[kani::proof]
#[kani::unwind(34)]
fn c01_store_small_uint() {
    let old = any_builder();
    let mut b = old.clone();
    let v: u8 = kani::any();
    let n: u16 = kani::any();
    let r = b.store_small_uint(v, n);
    check_store(&old, &b, r, n, |k| {
        let j = n - 1 - k; // bit significance
        j < 8 && (v >> j) & 1 == 1
    });
}

//@ C01 quick complete | CellDataBuilder::store_uint | any builder, any value, any width
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c01_store_uint() {
    let old = any_builder();
    let mut b = old.clone();
    let v: u64 = kani::any();
    let n: u16 = kani::any();
    let r = b.store_uint(v, n);
    check_store(&old, &b, r, n, |k| {
        let j = n - 1 - k;
        j < 64 && (v >> j) & 1 == 1
    });
}

macro_rules! store_raw {
    ($n:ident, $max:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $n() {
            let old = any_builder();
            let mut b = old.clone();
            let v: [u8; $max] = kani::any();
            let len: usize = kani::any();
            kani::assume(len <= $max);
            let n: u16 = kani::any();
            let r = b.store_raw(&v[..len], n);
            let pad = (n as usize).saturating_sub(len * 8) as u16;
            check_store(&old, &b, r, n, |k| k >= pad && bit(&v, (k - pad) as usize));
        }
    };
}
//@ C01 quick bounded | store_raw (CellDataBuilder::store_raw) | any builder, any width, any source of at most 5 bytes | c01_store_raw_5
store_raw!(c01_store_raw_5, 5, 7);
