//! C04: window algebra of cell slices (`CellSliceRange`, and the `CellSlice`
//! operations that delegate to it).
use crate::util::*;
use tycho_types::cell::*;
use tycho_types::error::Error;

type W = (u16, u16, u8, u8);

/// Any window that can exist over some cell: `start <= end`, bits within 1023,
/// references within 4.
fn any_win() -> (CellSliceRange, W) {
    let (s, e): (u16, u16) = kani::any();
    let (rs, re): (u8, u8) = kani::any();
    kani::assume(s <= e && e <= 1023 && rs <= re && re <= 4);
    (CellSliceRange::verif_from_parts(s, e, rs, re), (s, e, rs, re))
}

fn fits(w: W, bits: u16, refs: u8) -> bool {
    bits as u32 <= (w.1 - w.0) as u32 && refs <= w.3 - w.2
}

/// On success the window must be `exp`, on failure it must be untouched and the
/// error is an underflow.
fn post(r: Result<(), Error>, ok: bool, now: CellSliceRange, old: W, exp: W) {
    match r {
        Ok(()) => {
            assert!(ok, "succeeds only when enough is left");
            assert!(now.verif_parts() == exp, "resulting window");
        }
        Err(e) => {
            assert!(!ok, "fails only when not enough is left");
            assert!(matches!(e, Error::CellUnderflow), "CellUnderflow");
            assert!(now.verif_parts() == old, "unchanged on failure");
        }
    }
    kani::cover!(ok);
    kani::cover!(!ok);
}

//@ C04 quick complete | CellSliceRange::size, size_bits, size_refs, is_empty, is_data_empty, is_refs_empty, offset, offset_bits, offset_refs, has_remaining | any window, any u16/u8 sizes
#[kani::proof]
fn c04_observers() {
    let (w, p) = any_win();
    let (s, e, rs, re) = p;
    assert!(w.size_bits() == e - s && w.size_refs() == re - rs);
    assert!(w.size() == Size { bits: e - s, refs: re - rs });
    assert!(w.offset_bits() == s && w.offset_refs() == rs);
    assert!(w.offset() == Size { bits: s, refs: rs });
    assert!(w.is_data_empty() == (s == e));
    assert!(w.is_refs_empty() == (rs == re));
    assert!(w.is_empty() == (s == e && rs == re));
    let (b, r): (u16, u8) = kani::any();
    assert!(w.has_remaining(b, r) == fits(p, b, r));
    assert!(CellSliceRange::empty().verif_parts() == (0, 0, 0, 0));
}

macro_rules! mutator {
    ($n:ident, $m:ident, |$p:ident, $b:ident, $r:ident| $exp:expr) => {
        #[kani::proof]
        fn $n() {
            let (w, $p) = any_win();
            let ($b, $r): (u16, u8) = kani::any();
            let ok = fits($p, $b, $r);
            let exp = if ok { $exp } else { $p };
            if kani::any() {
                let mut w2 = w;
                let res = w2.$m($b, $r);
                post(res, ok, w2, $p, exp);
            } else {
                let c = TCell::<128>::with([0; 128], 0);
                let mut cs = w.apply_allow_exotic(dynref(&c));
                let res = cs.$m($b, $r);
                post(res, ok, cs.range(), $p, exp);
            }
        }
    };
}
//@ C04 quick complete | CellSliceRange::skip_first, CellSlice::skip_first | any window, any u16/u8 sizes | c04_skip_first
mutator!(c04_skip_first, skip_first, |p, b, r| (p.0 + b, p.1, p.2 + r, p.3));
//@ C04 quick complete | CellSliceRange::skip_last, CellSlice::skip_last | any window, any u16/u8 sizes | c04_skip_last
mutator!(c04_skip_last, skip_last, |p, b, r| (p.0, p.1 - b, p.2, p.3 - r));
//@ C04 quick complete | CellSliceRange::only_first, CellSlice::only_first | any window, any u16/u8 sizes | c04_only_first
mutator!(c04_only_first, only_first, |p, b, r| (p.0, p.0 + b, p.2, p.2 + r));
//@ C04 quick complete | CellSliceRange::only_last, CellSlice::only_last | any window, any u16/u8 sizes | c04_only_last
mutator!(c04_only_last, only_last, |p, b, r| (p.1 - b, p.1, p.3 - r, p.3));

macro_rules! splitter {
    ($n:ident, $m:ident, $l:ident, |$p:ident, $b:ident, $r:ident| $taken:expr, $rest:expr) => {
        #[kani::proof]
        fn $n() {
            let (w, $p) = any_win();
            let ($b, $r): (u16, u8) = kani::any();
            let ok = fits($p, $b, $r);
            let (taken, rest) = if ok { ($taken, $rest) } else { ($p, $p) };
            let c = TCell::<128>::with([0; 128], 0);
            let (res, after) = if kani::any() {
                let mut w2 = w;
                (w2.$m($b, $r), w2)
            } else {
                let mut cs = w.apply_allow_exotic(dynref(&c));
                (cs.$l($b, $r).map(|x| x.range()), cs.range())
            };
            let res = match res {
                Ok(t) => {
                    assert!(t.verif_parts() == taken, "window that was split off");
                    Ok(())
                }
                Err(e) => Err(e),
            };
            post(res, ok, after, $p, rest);
        }
    };
}
//@ C04 quick complete | CellSliceRange::split_prefix, CellSlice::load_prefix | any window, any u16/u8 sizes | c04_split_prefix
splitter!(c04_split_prefix, split_prefix, load_prefix, |p, b, r| (p.0, p.0 + b, p.2, p.2 + r), (p.0 + b, p.1, p.2 + r, p.3));
//@ C04 quick complete | CellSliceRange::split_suffix, CellSlice::load_suffix | any window, any u16/u8 sizes | c04_split_suffix
splitter!(c04_split_suffix, split_suffix, load_suffix, |p, b, r| (p.1 - b, p.1, p.3 - r, p.3), (p.0, p.1 - b, p.2, p.3 - r));

//@ C04 quick complete | CellSliceRange::get_prefix, CellSlice::get_prefix, load_remaining, without_references | any window, any u16/u8 sizes
#[kani::proof]
fn c04_get_prefix() {
    let (w, p) = any_win();
    let (s, e, rs, re) = p;
    let (b, r): (u16, u8) = kani::any();
    let eb = if b as u32 > (e - s) as u32 { e } else { s + b };
    let er = if r > re - rs { re } else { rs + r };
    assert!(w.get_prefix(b, r).verif_parts() == (s, eb, rs, er));
    let c = TCell::<128>::with([0; 128], 0);
    let mut cs = w.apply_allow_exotic(dynref(&c));
    assert!(cs.get_prefix(b, r).range().verif_parts() == (s, eb, rs, er));
    assert!(cs.without_references().range().verif_parts() == (s, e, re, re));
    assert!(cs.range().verif_parts() == p);
    let all = cs.load_remaining();
    assert!(all.range().verif_parts() == p);
    assert!(cs.range().verif_parts() == (e, e, re, re));
}

//@ C04 quick complete | CellSliceRange::full, CellSliceRange::apply, CellSlice::new, CellSlice::new_allow_exotic, CellSliceRange::is_full | any cell size and descriptor, any stored window
#[kani::proof]
fn c04_apply() {
    let mut c = TCell::<128>::with([0; 128], kani::any());
    kani::assume(c.bits <= 1023);
    let refs: u8 = kani::any();
    kani::assume(refs <= 4);
    let exotic: bool = kani::any();
    c.d1 = CellDescriptor::compute_d1(LevelMask::new(kani::any()), exotic, refs);
    let d = dynref(&c);
    let f = CellSliceRange::full(d);
    assert!(f.verif_parts() == (0, c.bits, 0, refs));
    assert!(f.is_full(d));
    let (w, p) = any_win();
    let full = p == (0, c.bits, 0, refs);
    assert!(w.is_full(d) == full);
    // a stored window is truncated to the cell bounds, exotic cells are refused
    match w.apply(d) {
        Ok(cs) => {
            assert!(!exotic);
            let e = if p.1 < c.bits { p.1 } else { c.bits };
            let s = if p.0 < e { p.0 } else { e };
            let re = if p.3 < refs { p.3 } else { refs };
            let rs = if p.2 < re { p.2 } else { re };
            assert!(cs.range().verif_parts() == (s, e, rs, re));
        }
        Err(e) => assert!(exotic && matches!(e, Error::UnexpectedExoticCell)),
    }
    match CellSlice::new(d) {
        Ok(cs) => assert!(!exotic && cs.range().verif_parts() == (0, c.bits, 0, refs)),
        Err(e) => assert!(exotic && matches!(e, Error::UnexpectedExoticCell)),
    }
    assert!(CellSlice::new_allow_exotic(d).range().verif_parts() == (0, c.bits, 0, refs));
}
