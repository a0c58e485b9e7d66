//! C12: shard identifiers.
//!
//! A shard of depth `n` denotes the set of accounts whose first `n` address bits
//! equal the shard prefix; every operation is specified on that denotation.
use crate::tape::{self, append, Tape};
use crate::util::*;
use std::mem::ManuallyDrop;
use tycho_types::cell::*;
use tycho_types::models::{Addr, BlockIdShort, ShardIdent, ShardIdentFull};

/// First `n` bits of an account prefix.
fn top(x: u64, n: u16) -> u64 {
    if n == 0 { 0 } else { x >> (64 - n) }
}
fn any_shard() -> ShardIdent {
    let s = ShardIdent::new(kani::any(), kani::any());
    kani::assume(s.is_some());
    s.unwrap()
}
/// Spec: depth of a shard from the position of the terminating bit.
fn depth(p: u64) -> u16 {
    63 - p.trailing_zeros() as u16
}

//@ C12 quick complete | ShardIdent::new, prefix_len, is_full, is_masterchain, can_split, workchain, prefix | all workchains and prefixes
#[kani::proof]
fn c12_new() {
    let (w, p): (i32, u64) = kani::any();
    let ok = p != 0 && p & 7 == 0 && (w != -1 || p == 1 << 63);
    match ShardIdent::new(w, p) {
        None => assert!(!ok, "accepted"),
        Some(s) => {
            assert!(ok, "refused");
            assert!(s.workchain() == w && s.prefix() == p);
            assert!(s.prefix_len() == depth(p) && s.prefix_len() <= 60, "depth");
            assert!(s.is_full() == (depth(p) == 0) && s.is_masterchain() == (w == -1));
            assert!(s.can_split() == (depth(p) < 60));
        }
    }
    let f = ShardIdent::new_full(w);
    assert!(f.is_full() && f.workchain() == w && f.prefix_len() == 0);
    kani::cover!(ok);
}

//@ C12 quick complete | ShardIdent::is_ancestor_of, is_parent_of, is_child_of, intersects | all pairs of shards
#[kani::proof]
fn c12_relations() {
    let (a, b) = (any_shard(), any_shard());
    let (n, m) = (depth(a.prefix()), depth(b.prefix()));
    let same = a.workchain() == b.workchain();
    let anc = same && n <= m && top(a.prefix(), n) == top(b.prefix(), n);
    kani::cover!(anc && n < m);
    kani::cover!(same && !anc);
    assert!(a.is_ancestor_of(&b) == anc, "ancestor: every account of b is in a");
    assert!(a.is_parent_of(&b) == (anc && m == n + 1), "parent: ancestor one level up");
    assert!(b.is_child_of(&a) == (anc && m == n + 1), "child");
    let k = if n < m { n } else { m };
    assert!(a.intersects(&b) == (same && top(a.prefix(), k) == top(b.prefix(), k)), "intersects: a common account");
    assert!(b.intersects(&a) == a.intersects(&b));
}

//@ C12 quick complete | ShardIdent::merge, split, opposite, is_left_child, is_right_child | all shards
#[kani::proof]
fn c12_tree() {
    let s = any_shard();
    let n = depth(s.prefix());
    let p = s.prefix();
    assert!(s.is_right_child() == (n > 0 && top(p, n) & 1 == 1), "right child");
    assert!(s.is_left_child() == !s.is_right_child(), "left child");
    match s.merge() {
        None => assert!(n == 0, "only a full shard has no parent"),
        Some(m) => {
            assert!(n > 0 && m.workchain() == s.workchain());
            assert!(m.prefix() != 0 && depth(m.prefix()) == n - 1 && top(m.prefix(), n - 1) == top(p, n - 1), "parent prefix");
        }
    }
    match s.opposite() {
        None => assert!(n == 0, "only a full shard has no sibling"),
        Some(o) => {
            assert!(n > 0 && o.workchain() == s.workchain());
            assert!(o.prefix() != 0 && depth(o.prefix()) == n && top(o.prefix(), n) == top(p, n) ^ 1, "sibling prefix");
        }
    }
    match s.split() {
        None => assert!(n == 60, "a shard splits unless it is at the maximal depth"),
        Some((l, r)) => {
            assert!(n < 60 && l.workchain() == s.workchain() && r.workchain() == s.workchain());
            assert!(depth(l.prefix()) == n + 1 && depth(r.prefix()) == n + 1);
            assert!(top(l.prefix(), n + 1) == top(p, n) << 1 && top(r.prefix(), n + 1) == (top(p, n) << 1) | 1, "children prefixes");
            assert!(l.prefix() & 7 == 0 && r.prefix() & 7 == 0);
            assert!(l.merge() == Some(s) && r.merge() == Some(s) && l.opposite() == Some(r), "split and merge are inverse");
        }
    }
    kani::cover!(n == 0);
    kani::cover!(n == 60);
}

struct A(i32, u64);
impl Addr for A {
    fn workchain(&self) -> i32 {
        self.0
    }
    fn prefix(&self) -> u64 {
        self.1
    }
}
//@ C12 quick complete | ShardIdent::contains_account, contains_address | all shards and accounts
#[kani::proof]
#[kani::unwind(10)]
fn c12_contains() {
    let s = any_shard();
    let n = depth(s.prefix());
    let h: [u8; 32] = kani::any();
    let p = u64::from_be_bytes([h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]]);
    let inside = top(p, n) == top(s.prefix(), n);
    kani::cover!(inside && n > 9);
    assert!(s.contains_account(&HashBytes(h)) == inside, "account is inside iff its first bits are the shard prefix");
    let w: i32 = kani::any();
    assert!(s.contains_address(&A(w, p)) == (inside && w == s.workchain()), "address is inside iff the workchain also matches");
}

//@ C12 quick complete | ShardIdent: Store | all shards, any builder fill
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_uint, tape::store_uint)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_small_uint, tape::store_small_uint)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_u8, tape::store_u8)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_u16, tape::store_u16)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_u32, tape::store_u32)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_u64, tape::store_u64)]
#[kani::stub(tycho_types::cell::CellDataBuilder::store_u128, tape::store_u128)]
fn c12_store() {
    let s = any_shard();
    let fill: u16 = kani::any();
    kani::assume(fill <= 1023);
    let mut b = ManuallyDrop::new(CellBuilder::from(CellDataBuilder::verif_from_parts([0; 128], fill)));
    let r = s.store_into(&mut b, &NoCtx);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    assert!(r.is_ok() == (fill + 104 <= 1023), "stored exactly when there is room");
    if r.is_ok() {
        let n = depth(s.prefix());
        let bits = if n == 0 { 0 } else { top(s.prefix(), n) << (64 - n) };
        let mut w = append(tape::ZERO, n as u128, 8);
        w = append(w, s.workchain() as u32 as u128, 32);
        w = append(w, bits as u128, 64);
        assert!(Tape::len() == 104 && ShardIdent::BITS == 104 && tape::is(Tape::words(), w), "depth, workchain, prefix without the tag");
    }
}

//@ C12 quick complete | ShardIdent: Load | any cell data, any window
#[kani::proof]
#[kani::unwind(20)]
#[kani::stub(core::ptr::copy_nonoverlapping, copy_loop)]
fn c12_load() {
    let c = TCell::<14>::any_data();
    let (s, e): (u16, u16) = (3, kani::any());
    kani::assume(s <= e && e <= c.bits);
    let mut cs = CellSliceRange::verif_from_parts(s, e, 0, 0).apply_allow_exotic(c.as_dyn());
    let r = ShardIdent::load_from(&mut cs);
    let mut w = [0u8; 16];
    w[..14].copy_from_slice(&c.data);
    let x = u128::from_be_bytes(w) << 3;
    let (n, wc, p) = ((x >> 120) as u16, (x >> 88) as u32 as i32, (x >> 24) as u64);
    let ok = s + 104 <= e && n <= 60;
    kani::cover!(ok && n == 60);
    kani::cover!(ok && n == 0);
    kani::cover!(!ok);
    assert!(r.is_ok() == ok, "decoded exactly when complete and not deeper than 60");
    if let Ok(v) = r {
        assert!(cs.offset_bits() == s + 104);
        assert!(v.workchain() == wc && v.prefix() != 0 && depth(v.prefix()) == n, "workchain and depth");
        assert!(top(v.prefix(), n) == top(p, n), "prefix bits");
    }
}

//@ C12 quick complete | ShardIdentFull: StoreDictKey, LoadDictKey, TryFrom; From<ShardIdent> | all values
#[kani::proof]
#[kani::unwind(20)]
fn c12_full() {
    use tycho_types::dict::{LoadDictKey, StoreDictKey};
    let (w, p): (i32, u64) = kani::any();
    let f = ShardIdentFull { workchain: w, prefix: p };
    let mut b = CellDataBuilder::new();
    assert!(f.store_into_data(&mut b).is_ok() && b.size_bits() == 96);
    let d = b.raw_data();
    assert!(u32::from_be_bytes([d[0], d[1], d[2], d[3]]) as i32 == w);
    assert!(u64::from_be_bytes([d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11]]) == p);
    let g = ShardIdentFull::load_from_data(&b).unwrap();
    assert!(g.workchain == w && g.prefix == p, "key round trip");
    match ShardIdent::try_from(f) {
        Ok(s) => assert!(ShardIdent::new(w, p) == Some(s) && ShardIdentFull::from(s).prefix == p && ShardIdentFull::from(s).workchain == w),
        Err(_) => assert!(ShardIdent::new(w, p).is_none()),
    }
}

//@ C12 quick complete | BlockIdShort::saturating_next, saturating_prev, saturating_add, saturating_sub | all values
#[kani::proof]
fn c12_block_id_short() {
    let b = BlockIdShort { shard: any_shard(), seqno: kani::any() };
    let d: u32 = kani::any();
    let s = b.seqno as u64;
    let up = |x: u64| if x > u32::MAX as u64 { u32::MAX } else { x as u32 };
    assert!(b.saturating_add(d).seqno == up(s + d as u64) && b.saturating_next().seqno == up(s + 1));
    assert!(b.saturating_sub(d).seqno as u64 == s.saturating_sub(d as u64) && b.saturating_prev().seqno as u64 == s.saturating_sub(1));
    assert!(b.saturating_add(d).shard == b.shard && b.saturating_sub(d).shard == b.shard);
}
