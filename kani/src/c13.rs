//! C13: message addresses.
use crate::tape::{self, append, Tape};
use crate::rtape::{self, RCell};
use crate::util::*;
use crate::{with_rtape, with_tape};
use std::mem::ManuallyDrop;
use tycho_types::cell::*;
use tycho_types::dict::{LoadDictKey, StoreDictKey};
use tycho_types::error::Error;
use tycho_types::models::{Addr, Anycast, IntAddr, StdAddr, VarAddr};
use tycho_types::num::*;

fn filled(n: u16) -> ManuallyDrop<CellBuilder> {
    ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], n)))
}
fn hash_words(h: &[u8; 32]) -> (u128, u128) {
    let w: [u128; 2] = unsafe { core::mem::transmute(*h) };
    (u128::from_be(w[0]), u128::from_be(w[1]))
}

fn any_anycast() -> (Anycast, u16, u128) {
    let d: u8 = kani::any();
    let depth = SplitDepth::new(d);
    kani::assume(depth.is_ok());
    let data: [u8; 4] = kani::any();
    let n = (d as usize + 7) / 8;
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < n {
        v.push(data[i]);
        i += 1;
    }
    (Anycast { depth: depth.unwrap(), rewrite_prefix: v }, d as u16, (u32::from_be_bytes(data) >> (32 - d)) as u128)
}

with_tape! {
    #[kani::unwind(18)]
    fn c13_std_store() {
        let (anycast, d, pfx) = any_anycast();
        let has: bool = kani::any();
        let h: [u8; 32] = kani::any();
        let wc: i8 = kani::any();
        let mut a = StdAddr::new(wc, HashBytes(h));
        assert!(a.anycast.is_none() && a.workchain == wc);
        if has {
            a.anycast = Some(Box::new(anycast));
        }
        let len = 267 + if has { 5 + d } else { 0 };
        assert!(a.bit_len() == len, "advertised length");
        assert!(a.prefix() == u64::from_be_bytes([h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]]), "prefix");
        assert!(a.is_masterchain() == (wc == -1) && Addr::workchain(&a) == wc as i32 && Addr::prefix(&a) == a.prefix());
        let fill: u16 = kani::any();
        kani::assume(fill <= 1023);
        let mut b = filled(fill);
        let fits = fill + len <= 1023;
        let via_int: bool = kani::any();
        let r = if via_int {
            let i = IntAddr::Std(a);
            assert!(i.bit_len() == len && i.workchain() == wc as i32);
            let r = i.store_into(&mut b, &NoCtx);
            std::mem::forget(i);
            r
        } else {
            let r = a.store_into(&mut b, &NoCtx);
            std::mem::forget(a);
            r
        };
        assert!(r.is_ok() == fits, "stored exactly when there is room");
        kani::cover!(fits && has);
        kani::cover!(!fits);
        if r.is_err() {
            assert!(Tape::len() == 0 && b.size_bits() == fill, "the builder is unchanged on error");
            return;
        }
        let mut w = append(tape::ZERO, 0b10, 2);
        if has {
            w = append(w, 1, 1);
            w = append(w, d as u128, 5);
            w = append(w, pfx, d as u32);
        } else {
            w = append(w, 0, 1);
        }
        w = append(w, wc as u8 as u128, 8);
        let (hi, lo) = hash_words(&h);
        w = append(append(w, hi, 128), lo, 128);
        assert!(Tape::len() == len as u32 && tape::is(Tape::words(), w), "tag, anycast, workchain, address");
    }
}
//@ C13 quick complete | StdAddr, Anycast: Store, bit_len, prefix, workchain; IntAddr::{store_into, bit_len, workchain} (standard) | all addresses, any builder fill | c13_std_store

with_tape! {
    #[kani::unwind(18)]
    fn c13_var_store() {
        let (anycast, d, pfx) = any_anycast();
        let has: bool = kani::any();
        let n: u16 = kani::any();
        kani::assume(n <= 32);
        let data: [u8; 4] = kani::any();
        let bytes = ((n + 7) / 8) as usize;
        let mut v = Vec::with_capacity(4);
        let mut i = 0;
        while i < bytes {
            v.push(data[i]);
            i += 1;
        }
        let wc: i32 = kani::any();
        let a = VarAddr { anycast: if has { Some(Box::new(anycast)) } else { None }, address_len: Uint9::new(n), workchain: wc, address: v };
        let len = 2 + 1 + 9 + 32 + n + if has { 5 + d } else { 0 };
        assert!(a.bit_len() == len, "advertised length");
        assert!(a.is_masterchain() == (wc == -1) && Addr::workchain(&a) == wc);
        let mut p = [0u8; 8];
        let mut i = 0;
        while i < bytes {
            p[i] = data[i];
            i += 1;
        }
        assert!(a.prefix() == u64::from_be_bytes(p), "prefix is the leading bytes, zero padded");
        let fill: u16 = kani::any();
        kani::assume(fill <= 1023);
        let mut b = filled(fill);
        let fits = fill + len <= 1023;
        let r = a.store_into(&mut b, &NoCtx);
        std::mem::forget(a);
        assert!(r.is_ok() == fits, "stored exactly when there is room");
        kani::cover!(fits && has);
        if r.is_err() {
            assert!(Tape::len() == 0 && b.size_bits() == fill, "the builder is unchanged on error");
            return;
        }
        let mut w = append(tape::ZERO, 0b11, 2);
        if has {
            w = append(w, 1, 1);
            w = append(w, d as u128, 5);
            w = append(w, pfx, d as u32);
        } else {
            w = append(w, 0, 1);
        }
        w = append(w, n as u128, 9);
        w = append(w, wc as u32 as u128, 32);
        w = append(w, if n == 0 { 0 } else { (u32::from_be_bytes(data) >> (32 - n)) as u128 }, n as u32);
        assert!(Tape::len() == len as u32 && tape::is(Tape::words(), w), "tag, anycast, length, workchain, address");
    }
}
//@ C13 quick bounded | VarAddr: Store, bit_len, prefix | address data of at most 32 bits, any fill | c13_var_store

//@ C13 quick complete | StdAddr: StoreDictKey, LoadDictKey | all addresses without anycast; all key data
#[kani::proof]
#[kani::unwind(36)]
fn c13_dict_key() {
    let data: [u8; 128] = kani::any();
    let key = CellDataBuilder::verif_from_parts(data, 267);
    let k = StdAddr::load_from_data(&key);
    let ok = data[0] >> 5 == 0b100;
    kani::cover!(ok);
    kani::cover!(!ok);
    assert!(k.is_some() == ok, "only standard addresses without anycast");
    if let Some(a) = k {
        assert!(a.anycast.is_none());
        assert!(a.workchain as u8 == (data[0] << 3) | (data[1] >> 5), "workchain bits");
        let i: usize = kani::any();
        kani::assume(i < 32);
        assert!(a.address.0[i] == (data[1 + i] << 3) | (data[2 + i] >> 5), "address bits");
        let mut b = CellDataBuilder::new();
        assert!(a.store_into_data(&mut b).is_ok() && b.size_bits() == 267);
        let j: usize = kani::any();
        kani::assume(j < 34);
        let m = if j == 33 { 0xe0 } else { 0xff };
        assert!(b.raw_data()[j] == data[j] & m, "key round trip");
        std::mem::forget(a);
    }
}

//@ C13 quick complete | StdAddr, IntAddr: Load (no anycast) | any cell data, any length | c13_std_load
fn no_anycast<'a: 'a>(_: &mut CellSlice<'a>) -> Result<Anycast, Error> {
    unreachable!()
}

with_rtape! {
    #[kani::unwind(34)]
    #[kani::stub(<tycho_types::models::Anycast as tycho_types::cell::Load>::load_from, no_anycast)]
    fn c13_std_load() {
        let c = RCell::any(3);
        let e = c.cell.bits;
        let tag = rtape::bits(0, 2);
        // no anycast info (anycast: c13_anycast_load)
        kani::assume(e < 3 || rtape::bits(2, 1) == 0);
        let mut cs = c.slice();
        let (ok, r) = if kani::any() {
            kani::assume(tag != 3);
            let r = match IntAddr::load_from(&mut cs) {
                Ok(IntAddr::Std(a)) => Ok(a),
                Ok(_) => unreachable!(),
                Err(e) => Err(e),
            };
            (tag == 0b10 && 267 <= e, r)
        } else {
            (tag == 0b10 && 267 <= e, StdAddr::load_from(&mut cs))
        };
        kani::cover!(ok);
        kani::cover!(!ok);
        assert!(r.is_ok() == ok, "tag and length are checked");
        if let Ok(a) = r {
            assert!(a.anycast.is_none() && cs.offset_bits() == 267);
            assert!(a.workchain as u8 as u128 == rtape::bits(3, 8), "workchain bits");
            let (hi, lo) = hash_words(&a.address.0);
            assert!(hi == rtape::bits(11, 128) && lo == rtape::bits(139, 128), "address bits");
            std::mem::forget(a);
        }
    }
}

//@ C13 quick complete | Anycast: Load, from_slice, bit_len | any cell data, any window end
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c13_anycast_load() {
    let c = TCell::<6>::any_data();
    let (s, e): (u16, u16) = (3, kani::any());
    kani::assume(s <= e && e <= c.bits);
    let mut cs = CellSliceRange::verif_from_parts(s, e, 0, 0).apply_allow_exotic(c.as_dyn());
    let r = Anycast::load_from(&mut cs);
    let d = (c.data[0] & 31) as u16;
    let ok = s + 5 <= e && d >= 1 && d <= 30 && s + 5 + d <= e;
    kani::cover!(ok && d == 30);
    kani::cover!(!ok);
    assert!(r.is_ok() == ok, "depth 1..=30 and enough data");
    if let Ok(a) = r {
        assert!(a.depth.into_bit_len() == d && a.bit_len() == 5 + d && cs.offset_bits() == s + 5 + d);
        assert!(a.rewrite_prefix.len() == ((d + 7) / 8) as usize);
        let k: u16 = kani::any();
        kani::assume(k < d);
        assert!(bit(&a.rewrite_prefix, k as usize) == c.bit(s + 5 + k), "prefix bits");
    }
}
