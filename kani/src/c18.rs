//! C18: fees and currency amounts.
use std::mem::ManuallyDrop;
use std::num::NonZeroU32;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::models::*;
use tycho_types::num::*;

const MAX: u128 = u128::MAX;

/// Spec: `ceil(x / 2^16)`.
fn ceil16(x: u128) -> u128 {
    x / 65536 + if x % 65536 == 0 { 0 } else { 1 }
}
fn stats() -> CellTreeStats {
    CellTreeStats { bit_count: kani::any(), cell_count: kani::any() }
}
/// Spec: the smaller of `a + b` and the greatest 128-bit number.
fn add(a: u128, b: u128) -> u128 {
    if b > MAX - a { MAX } else { a + b }
}

//@ C18 quick bounded | GasLimitsPrices::compute_gas_fee | any prices, less than 2^12 units of gas over the flat limit
#[kani::proof]
fn c18_gas_fee() {
    let p = GasLimitsPrices {
        gas_price: kani::any(),
        gas_limit: kani::any(),
        special_gas_limit: kani::any(),
        gas_credit: kani::any(),
        block_gas_limit: kani::any(),
        freeze_due_limit: kani::any(),
        delete_due_limit: kani::any(),
        flat_gas_limit: kani::any(),
        flat_gas_price: kani::any(),
    };
    let used: u64 = kani::any();
    let fee = p.compute_gas_fee(used).into_inner();
    let flat = p.flat_gas_price as u128;
    if used <= p.flat_gas_limit {
        assert!(fee == flat, "the first portion has a flat price");
    } else {
        let extra = (used - p.flat_gas_limit) as u128;
        kani::assume(extra < 1 << 12);
        assert!(fee == flat + ceil16((p.gas_price as u128).wrapping_mul(extra)), "flat price and the rounded up price of the rest");
    }
    kani::cover!(fee > flat);
}

fn storage(s: CellTreeStats, delta: u64, p: StoragePrices) {
    let mc: bool = kani::any();
    let fee = p.compute_storage_fee(mc, delta, s).into_inner();
    let (b, c) = if mc { (p.mc_bit_price_ps, p.mc_cell_price_ps) } else { (p.bit_price_ps, p.cell_price_ps) };
    let per_second = add(s.cell_count as u128 * c as u128, s.bit_count as u128 * b as u128);
    let total = match per_second.checked_mul(delta as u128) {
        Some(x) => x,
        None => MAX,
    };
    assert!(fee == ceil16(total), "price per second, times the seconds, rounded up");
}

//@ C18 quick bounded | StoragePrices::compute_storage_fee | prices below 2^16, less than 2^3 cells, bits and seconds
#[kani::proof]
fn c18_storage_fee() {
    let p = || kani::any::<u16>() as u64;
    let n = || (kani::any::<u8>() & 7) as u64;
    let q = StoragePrices { utime_since: kani::any(), bit_price_ps: p(), cell_price_ps: p(), mc_bit_price_ps: p(), mc_cell_price_ps: p() };
    storage(CellTreeStats { bit_count: n(), cell_count: n() }, n(), q);
}
//@ C18 quick bounded | StoragePrices::compute_storage_fee (saturation) | prices that are powers of two, the greatest sizes, any time
#[kani::proof]
fn c18_storage_fee_max() {
    let (a, b): (bool, bool) = (kani::any(), kani::any());
    let q = StoragePrices {
        utime_since: 0,
        bit_price_ps: if a { 1 << 63 } else { 1 << 40 },
        cell_price_ps: if b { 1 << 63 } else { 1 << 20 },
        mc_bit_price_ps: if a { 1 } else { 1 << 62 },
        mc_cell_price_ps: if b { 1 << 63 } else { 0 },
    };
    let d: bool = kani::any();
    storage(CellTreeStats { bit_count: u64::MAX, cell_count: u64::MAX }, if d { 1 << 2 } else { 1 << 62 }, q);
}

//@ C18 quick complete | MsgForwardPrices::compute_fwd_fee | any prices and sizes
#[kani::proof]
#[kani::solver(z3)]
fn c18_fwd_fee() {
    let p = prices();
    let s = stats();
    let fee = p.compute_fwd_fee(s).into_inner();
    let extra = add(s.cell_count as u128 * p.cell_price as u128, s.bit_count as u128 * p.bit_price as u128);
    assert!(fee == add(p.lump_price as u128, ceil16(extra)), "fixed price and the rounded up price of cells and bits");
}

fn prices() -> MsgForwardPrices {
    MsgForwardPrices {
        lump_price: kani::any(),
        bit_price: kani::any(),
        cell_price: kani::any(),
        ihr_price_factor: kani::any(),
        first_frac: kani::any(),
        next_frac: kani::any(),
    }
}

//@ C18 quick complete | MsgForwardPrices::{get_first_part, get_next_part} | any fractions, any amount of tokens of up to 112 bits
#[kani::proof]
#[kani::solver(z3)]
fn c18_fwd_parts() {
    let p = prices();
    let total: u128 = kani::any();
    kani::assume(total < 1 << 112);
    let a = p.get_first_part(Tokens::new(total)).into_inner();
    let b = p.get_next_part(Tokens::new(total)).into_inner();
    assert!(a == (total * p.first_frac as u128) / 65536, "first part");
    assert!(b == (total * p.next_frac as u128) / 65536, "next part");
}

//@ C18 quick bounded | MsgForwardPrices::{get_first_part, get_next_part} (great amounts) | any fractions, amounts of 16 significant bits up to 2^120
#[kani::proof]
fn c18_fwd_parts_bound() {
    let p = prices();
    let t: u16 = kani::any();
    let total = (t as u128) << 104;
    let want = |f: u16| {
        let x = t as u128 * f as u128;
        if x >> 24 != 0 { MAX >> 16 } else { (x << 104) >> 16 }
    };
    let (a, b) = (p.get_first_part(Tokens::new(total)).into_inner(), p.get_next_part(Tokens::new(total)).into_inner());
    assert!(a == want(p.first_frac) && b == want(p.next_frac), "saturates instead of wrapping");
    assert!(a <= total && b <= total, "a part is not greater than the whole");
}

fn burned(t: u128, n: u32, d: u32) {
    let c = BurningConfig { blackhole_addr: None, fee_burn_num: n, fee_burn_denom: NonZeroU32::new(d).unwrap() };
    assert!(c.is_valid() == (n <= d));
    match c.compute_burned_fees(Tokens::new(t)) {
        Ok(x) => {
            assert!(n <= d || n == 0, "only for a valid fraction");
            assert!(x.into_inner() == t * n as u128 / d as u128, "rounded down");
        }
        Err(_) => assert!(n > d, "never fails for a valid fraction"),
    }
}
//@ C18 quick bounded | BurningConfig::compute_burned_fees | amounts below 2^16, five fractions
#[kani::proof]
#[kani::unwind(34)]
fn c18_burned_fees() {
    let t = kani::any::<u16>() as u128;
    burned(t, 1, 2);
    burned(t, 2, 3);
    burned(t, 0, 5);
    burned(t, 7, 7);
    burned(t, 8, 7);
}
fn cc(t: u128) -> ManuallyDrop<CurrencyCollection> {
    ManuallyDrop::new(CurrencyCollection::new(t))
}

fn amounts() -> (u128, u128, Option<u128>, Option<u128>) {
    let (a, b): (u128, u128) = (kani::any(), kani::any());
    kani::assume(a < 1 << 120 && b < 1 << 120);
    (a, b, if a + b < 1 << 120 { Some(a + b) } else { None }, if a >= b { Some(a - b) } else { None })
}
fn is(r: Result<CurrencyCollection, Error>, w: Option<u128>) {
    match &*ManuallyDrop::new(r) {
        Ok(r) => assert!(w == Some(r.tokens.into_inner()) && r.other.is_empty(), "exact"),
        Err(e) => assert!(w.is_none() && matches!(e, Error::IntOverflow), "refused only when out of range"),
    }
}

//@ C18 quick complete | CurrencyCollection::{checked_add, checked_sub, checked_clamp, is_zero} | any amounts of tokens, no extra currencies
#[kani::proof]
#[kani::unwind(4)]
fn c18_currency() {
    let (a, b, sum, dif) = amounts();
    let (x, y) = (cc(a), cc(b));
    assert!(x.is_zero() == (a == 0));
    match kani::any::<u8>() {
        0 => is(x.checked_add(&y), sum),
        1 => is(x.checked_sub(&y), dif),
        _ => is(x.checked_clamp(&y), Some(if a < b { a } else { b })),
    }
}

//@ C18 quick complete | CurrencyCollection::{try_add_assign, try_sub_assign, try_add_assign_tokens, try_sub_assign_tokens} | any amounts of tokens, no extra currencies
#[kani::proof]
#[kani::unwind(4)]
fn c18_currency_assign() {
    let (a, b, sum, dif) = amounts();
    let (mut x, y) = (cc(a), cc(b));
    let (r, w) = match kani::any::<u8>() {
        0 => (x.try_add_assign_tokens(y.tokens), sum),
        1 => (x.try_sub_assign_tokens(y.tokens), dif),
        2 => (x.try_add_assign(&y), sum),
        _ => (x.try_sub_assign(&y), dif),
    };
    match &*ManuallyDrop::new(r) {
        Ok(()) => assert!(w == Some(x.tokens.into_inner()), "exact"),
        Err(e) => {
            assert!(w.is_none() && matches!(e, Error::IntOverflow), "refused only when out of range");
            assert!(x.tokens.into_inner() == a, "kept if refused");
        }
    }
    assert!(x.other.is_empty());
}

//@ C18 quick complete | CellTreeStats additions and subtractions | any sizes
#[kani::proof]
fn c18_stats() {
    let (a, b) = (stats(), stats());
    let s = Size { bits: kani::any(), refs: kani::any() };
    let sat = |x: u64, y: u64| if y > u64::MAX - x { u64::MAX } else { x + y };
    let is = |r: CellTreeStats, bits: u64, cells: u64| r.bit_count == sat(a.bit_count, bits) && r.cell_count == sat(a.cell_count, cells);
    assert!(is(a + b, b.bit_count, b.cell_count));
    let mut c = a;
    c += b;
    assert!(is(c, b.bit_count, b.cell_count));
    assert!(is(a + s, s.bits as u64, s.refs as u64));
    let mut c = a;
    c += s;
    assert!(is(c, s.bits as u64, s.refs as u64));
}
