//! C02: builder operations on whole contents.
use crate::util::*;
use std::mem::ManuallyDrop;
use std::sync::Arc;
use tycho_types::cell::*;
use tycho_types::error::Error;

//@ C02 quick complete | CellDataBuilder::rewind_bits | any builder, any number of bits
#[kani::proof]
#[kani::unwind(4)]
fn c02_rewind() {
    let old = any_builder();
    let n: u16 = kani::any();
    let mut b = old.clone();
    let k: u16 = kani::any();
    kani::assume(k < 1024);
    tail_zero_at(&old, (k >> 3) as usize);
    let r = b.rewind_bits(n);
    if n > old.size_bits() {
        assert!(matches!(r, Err(Error::CellUnderflow)), "cannot remove more than there is");
        check_unchanged(&old, &b);
    } else {
        assert!(r.is_ok());
        assert!(b.size_bits() == old.size_bits() - n, "size");
        let x = bit(b.raw_data(), k as usize);
        assert!(x == (k < b.size_bits() && bit(old.raw_data(), k as usize)), "kept bits are kept, removed bits are zero");
    }
    kani::cover!(n > 8 && n < old.size_bits());
}

//@ C02 quick complete | CellDataBuilder::{clear_bits, spare_capacity_bits, has_capacity_bits}, CellBuilder::{size, spare_capacity, has_capacity} | any builder, any request
#[kani::proof]
#[kani::unwind(4)]
fn c02_capacity() {
    let b = any_builder();
    let (n, m): (u16, u8) = (kani::any(), kani::any());
    let free = 1023 - b.size_bits();
    assert!(b.spare_capacity_bits() == free);
    assert!(b.has_capacity_bits(n) == (n <= free));
    let c = ManuallyDrop::new(CellBuilder::from(b.clone()));
    assert!(c.size().bits == b.size_bits() && c.size().refs == 0 && c.size_refs() == 0);
    assert!(c.spare_capacity().bits == free && c.spare_capacity().refs == 4);
    assert!(c.has_capacity(n, m) == (n <= free && m <= 4));
    let mut d = b;
    d.clear_bits();
    let k: usize = kani::any();
    kani::assume(k < 128);
    assert!(d.size_bits() == 0 && d.raw_data()[k] == 0);
}

/// A builder of at most `N` bytes.
fn small_builder<const N: usize>() -> CellDataBuilder {
    let d: [u8; N] = kani::any();
    let n: u16 = kani::any();
    kani::assume(n as usize <= N * 8);
    let mut data = [0; 128];
    let mut i = 0;
    while i < N {
        let have = n.saturating_sub(8 * i as u16);
        data[i] = if have >= 8 { d[i] } else { d[i] & !(0xff >> have) };
        i += 1;
    }
    CellDataBuilder::verif_from_parts(data, n)
}

//@ C02 quick bounded | CellDataBuilder::prepend_raw | builders of up to 2 bytes, sources of up to 2 bytes, any width
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c02_prepend() {
    let old = small_builder::<2>();
    let v: [u8; 2] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 2);
    let n: u16 = kani::any();
    let mut b = old.clone();
    let r = b.prepend_raw(&v[..len], n);
    if old.size_bits() as u32 + n as u32 > 1023 {
        assert!(matches!(r, Err(Error::CellOverflow)));
        check_unchanged(&old, &b);
        return;
    }
    assert!(r.is_ok());
    assert!(b.size_bits() == old.size_bits() + n);
    let pad = n.saturating_sub(len as u16 * 8);
    let k: u16 = kani::any();
    kani::assume(k < 1024);
    let want = if k < n {
        k >= pad && bit(&v, (k - pad) as usize)
    } else {
        k - n < old.size_bits() && bit(old.raw_data(), (k - n) as usize)
    };
    assert!(bit(b.raw_data(), k as usize) == want, "new bits first, then the old ones");
    kani::cover!(n > 16 && old.size_bits() > 9);
}

//@ C02 quick bounded | CellDataBuilder::store_cell_data | any builder, cells of up to 5 bytes
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c02_store_cell_data() {
    let old = any_builder();
    let c = TCell::<5>::any_data();
    let mut b = old.clone();
    let r = b.store_cell_data(c.as_dyn());
    check_store(&old, &b, r, c.bits, |k| c.bit(k));
}

//@ C02 quick bounded | CellDataBuilder::store_slice_data | any builder, any window of cells of up to 4 bytes
#[kani::proof]
#[kani::unwind(7)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c02_store_slice_data() {
    let old = any_builder();
    let c = TCell::<4>::any_data();
    let w = any_range(c.bits);
    let (s, e, _, _) = w.verif_parts();
    let mut b = old.clone();
    let r = b.store_slice_data(w.apply_allow_exotic(c.as_dyn()));
    check_store(&old, &b, r, e - s, |k| c.bit(s + k));
}

//@ C02 quick bounded | CellBuilder::store_builder | any builder, appended builders of up to 2 bytes
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c02_store_builder() {
    let old = any_builder();
    let add = small_builder::<2>();
    let mut b = ManuallyDrop::new(CellBuilder::from(old.clone()));
    let a = ManuallyDrop::new(CellBuilder::from(add.clone()));
    let r = b.store_builder(&a);
    check_store(&old, &b, r, add.size_bits(), |k| bit(add.raw_data(), k as usize));
}

fn refs<const N: usize, const M: usize>() {
    let len: u16 = kani::any();
    kani::assume(len <= 1023);
    let n: u16 = kani::any();
    kani::assume(n <= 8);
    let mut b = ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], len)));
    let mut a = ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], n)));
    let mut ptrs = [core::ptr::null(); 8];
    let mut i = 0;
    while i < N + M {
        let c = Arc::new(TCell::<1>::with([0], 0));
        ptrs[i] = Arc::as_ptr(&c);
        assert!(if i < N { b.store_reference(Cell::from(c)) } else { a.store_reference(Cell::from(c)) }.is_ok());
        i += 1;
    }
    let r = b.store_builder(&a);
    let fits = len + n <= 1023 && N + M <= 4;
    if fits {
        assert!(r.is_ok());
    } else {
        assert!(matches!(r, Err(Error::CellOverflow)));
    }
    let total = if fits { N + M } else { N };
    assert!(b.size_bits() == if fits { len + n } else { len } && b.size_refs() as usize == total, "size");
    let mut k = 0;
    while k < N + M {
        if k < total {
            assert!(core::ptr::addr_eq(b.references()[k].as_ref(), ptrs[k]), "references in order");
        }
        k += 1;
    }
}

macro_rules! refs {
    ($($id:ident $n:literal $m:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $id() {
            refs::<$n, $m>();
        }
    )*};
}
//@ C02 quick bounded | CellBuilder::store_builder (references) | 1 + 2 references | c02_store_builder_1_2
//@ C02 quick bounded | CellBuilder::store_builder (references) | 2 + 2 references | c02_store_builder_2_2
//@ C02 quick bounded | CellBuilder::store_builder (references) | 3 + 2 references | c02_store_builder_3_2
refs! {
    c02_store_builder_1_2 1 2;
    c02_store_builder_2_2 2 2;
    c02_store_builder_3_2 3 2;
}
