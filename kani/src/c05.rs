//! C05: comparing slices by content.
use crate::util::*;
use std::cmp::Ordering;
use tycho_types::cell::*;

macro_rules! scan {
    ($lead:ident, $trail:ident, $uni:ident, $n:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $lead() {
            let c = TCell::<$n>::any_data_unaligned();
            let range = any_range(c.bits);
            let cs = range.apply_allow_exotic(c.as_dyn());
            let (s, e, _, _) = range.verif_parts();
            let b: bool = kani::any();
            let l = cs.count_leading(b).unwrap();
            assert!(l <= e - s, "at most the whole window");
            kani::cover!(l > 16 && l < e - s);
            if l < e - s {
                assert!(c.bit(s + l) != b, "the run ends at a different bit");
            }
            let k: u16 = kani::any();
            if k < l {
                assert!(c.bit(s + k) == b, "every counted bit equals the searched one");
            }
        }
        #[kani::proof]
        #[kani::unwind($u)]
        fn $trail() {
            let c = TCell::<$n>::any_data();
            let range = any_range(c.bits);
            let cs = range.apply_allow_exotic(c.as_dyn());
            let (s, e, _, _) = range.verif_parts();
            let b: bool = kani::any();
            let l = cs.count_trailing(b).unwrap();
            assert!(l <= e - s, "at most the whole window");
            kani::cover!(l > 16 && l < e - s);
            if l < e - s {
                assert!(c.bit(e - 1 - l) != b, "the run ends at a different bit");
            }
            let k: u16 = kani::any();
            if k < l {
                assert!(c.bit(e - 1 - k) == b, "every counted bit equals the searched one");
            }
        }
        #[kani::proof]
        #[kani::unwind($u)]
        fn $uni() {
            let c = TCell::<$n>::any_data_unaligned();
            let range = any_range(c.bits);
            let cs = range.apply_allow_exotic(c.as_dyn());
            let (s, e, _, _) = range.verif_parts();
            let k: u16 = kani::any();
            match cs.test_uniform() {
                Some(b) => {
                    assert!(s < e);
                    kani::cover!(e - s > 70);
                    if k < e - s {
                        assert!(c.bit(s + k) == b, "every bit is the reported one");
                    }
                }
                None => {
                    // not uniform: empty, or there is a bit different from the first;
                    // the real leading-run counter (proved above) is the witness
                    if s < e {
                        let b = c.bit(s);
                        let l = cs.count_leading(b).unwrap();
                        assert!(l < e - s, "a uniform slice is recognized");
                    }
                }
            }
        }
    };
}
//@ C05 quick bounded | CellSlice::count_leading, bits_memscan | any cell of at most 20 bytes at any alignment, any window, any bit | c05_leading_20
//@ C05 quick bounded | CellSlice::count_trailing, bits_memscan_rev | any cell of at most 20 bytes, any window, any bit | c05_trailing_20
//@ C05 quick bounded | CellSlice::test_uniform | any cell of at most 20 bytes at any alignment, any window | c05_uniform_20
scan!(c05_leading_20, c05_trailing_20, c05_uniform_20, 20, 10);
//@ C05 thorough bounded | CellSlice::count_leading, bits_memscan | any cell of at most 48 bytes at any alignment, any window, any bit | c05_leading_48
//@ C05 thorough bounded | CellSlice::count_trailing, bits_memscan_rev | any cell of at most 48 bytes, any window, any bit | c05_trailing_48
//@ C05 thorough bounded | CellSlice::test_uniform | any cell of at most 48 bytes at any alignment, any window | c05_uniform_48
scan!(c05_leading_48, c05_trailing_48, c05_uniform_48, 48, 14);

/// Contract of the longest common prefix of two windows of different cells.
macro_rules! lcp {
    ($n1:ident, $strip:ident, $n:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $n1() {
            let (a, b) = (TCell::<$n>::any_data(), TCell::<$n>::any_data());
            let (ra, rb) = (any_range(a.bits), any_range(b.bits));
            let (ca, cb) = (ra.apply_allow_exotic(a.as_dyn()), rb.apply_allow_exotic(b.as_dyn()));
            let r = ca.longest_common_data_prefix(&cb).range();
            let (s, e, _, _) = ra.verif_parts();
            let (s2, e2, _, _) = rb.verif_parts();
            let max = if e - s < e2 - s2 { e - s } else { e2 - s2 };
            let (rs, re, _, _) = r.verif_parts();
            assert!(rs == s && re >= rs, "a prefix of the first slice");
            let l = re - rs;
            assert!(l <= max);
            kani::cover!(l > 9 && l < max);
            let k: u16 = kani::any();
            if k < l {
                assert!(a.bit(s + k) == b.bit(s2 + k), "common bits");
            }
            if l < max {
                assert!(a.bit(s + l) != b.bit(s2 + l), "longest");
            }
        }
        #[kani::proof]
        #[kani::unwind($u)]
        fn $strip() {
            let (a, b) = (TCell::<$n>::any_data(), TCell::<$n>::any_data());
            let (ra, rb) = (any_range(a.bits), any_range(b.bits));
            let (ca, cb) = (ra.apply_allow_exotic(a.as_dyn()), rb.apply_allow_exotic(b.as_dyn()));
            let (s, e, _, _) = ra.verif_parts();
            let (s2, e2, _, _) = rb.verif_parts();
            let n = e2 - s2;
            match ca.strip_data_prefix(&cb) {
                Some(r) => {
                    assert!(n <= e - s);
                    assert!(r.range().verif_parts() == (s + n, e, 0, 0), "exactly the prefix is removed");
                    kani::cover!(n > 9);
                    let k: u16 = kani::any();
                    if k < n {
                        assert!(a.bit(s + k) == b.bit(s2 + k), "the slice starts with the prefix");
                    }
                }
                None => {
                    // refused only when it does not start with the prefix
                    let same = n <= e - s && mask(left(&a, s, e), n) == left(&b, s2, e2);
                    assert!(!same, "a slice starting with the prefix is accepted");
                }
            }
        }
    };
}
//@ C05 quick bounded | CellSlice::longest_common_data_prefix | any windows of two cells of at most 9 bytes | c05_lcp_9
//@ C05 quick bounded | CellSlice::strip_data_prefix | any windows of two cells of at most 9 bytes | c05_strip_9
lcp!(c05_lcp_9, c05_strip_9, 9, 11);

/// The window `(s, e)` of a cell of at most 16 bytes as a left-aligned number.
fn left<const N: usize>(c: &TCell<N>, s: u16, e: u16) -> u128 {
    let mut x = 0u128;
    let mut i = 0;
    while i < N {
        x |= (c.data[i] as u128) << (120 - 8 * i);
        i += 1;
    }
    mask(if s >= 128 { 0 } else { x << s }, e - s)
}

/// Keeps the `n` leading bits.
fn mask(x: u128, n: u16) -> u128 {
    if n == 0 { 0 } else { x & (u128::MAX << (128 - n)) }
}

/// Lexicographic order of bit strings: the first differing bit decides (this is
/// the order of the left-aligned numbers), otherwise the shorter string is less.
fn spec_cmp<const N: usize>(a: &TCell<N>, wa: (u16, u16), b: &TCell<N>, wb: (u16, u16)) -> Ordering {
    let (n, m) = (wa.1 - wa.0, wb.1 - wb.0);
    let k = if n < m { n } else { m };
    let (x, y) = (mask(left(a, wa.0, wa.1), k), mask(left(b, wb.0, wb.1), k));
    if x != y {
        return if x < y { Ordering::Less } else { Ordering::Greater };
    }
    if n < m {
        Ordering::Less
    } else if n > m {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

macro_rules! cmp {
    ($name:ident, $what:literal, $n:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
        fn $name() {
            let (a, b) = (TCell::<$n>::any_data(), TCell::<$n>::any_data());
            let (ra, rb) = (any_range(a.bits), any_range(b.bits));
            let (ca, cb) = (ra.apply_allow_exotic(a.as_dyn()), rb.apply_allow_exotic(b.as_dyn()));
            let (s, e, _, _) = ra.verif_parts();
            let (s2, e2, _, _) = rb.verif_parts();
            if $what == 4 {
                kani::assume(s2 == 0);
            }
            let exp = spec_cmp(&a, (s, e), &b, (s2, e2));
            kani::cover!(exp.is_lt() && e2 - s2 > 12);
            match $what {
                0 | 4 => assert!(ca.lex_cmp(&cb) == Ok(exp), "lexicographic order"),
                1 => assert!(ca.contents_eq(&cb) == Ok(exp.is_eq()), "equal contents"),
                2 => {
                    let n = e - s;
                    let exp = n <= e2 - s2 && spec_cmp(&a, (s, e), &b, (s2, s2 + if n < e2 - s2 { n } else { e2 - s2 })).is_eq();
                    assert!(ca.is_data_prefix_of(&cb) == Ok(exp), "prefix");
                }
                _ => {
                    let n = e - s;
                    let exp = n <= e2 - s2 && spec_cmp(&a, (s, e), &b, (e2 - if n < e2 - s2 { n } else { e2 - s2 }, e2)).is_eq();
                    assert!(ca.is_data_suffix_of(&cb) == Ok(exp), "suffix");
                }
            }
        }
    };
}
//@ C05 quick bounded | CellSlice::lex_cmp | any windows of two cells of at most 6 bytes | c05_cmp_6
cmp!(c05_cmp_6, 0, 6, 8);
//@ C05 quick bounded | CellSlice::lex_cmp | any window of a cell of at most 9 bytes against a cell of at most 9 bytes read from its start | c05_cmp_9a
cmp!(c05_cmp_9a, 4, 9, 10);
//@ C05 thorough bounded | CellSlice::lex_cmp | any windows of two cells of at most 9 bytes | c05_cmp_9
cmp!(c05_cmp_9, 0, 9, 10);
//@ C05 quick bounded | CellSlice::contents_eq | any windows of two cells of at most 5 bytes | c05_eq_5
cmp!(c05_eq_5, 1, 5, 7);
//@ C05 quick bounded | CellSlice::is_data_prefix_of | any windows of two cells of at most 5 bytes | c05_prefix_5
cmp!(c05_prefix_5, 2, 5, 7);
//@ C05 quick bounded | CellSlice::is_data_suffix_of | any windows of two cells of at most 5 bytes | c05_suffix_5
cmp!(c05_suffix_5, 3, 5, 7);
