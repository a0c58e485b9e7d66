//! C06: cell descriptors and level masks.
use tycho_types::cell::*;

fn pop(mask: u8) -> u8 {
    (mask & 1) + ((mask >> 1) & 1) + ((mask >> 2) & 1)
}

//@ C06 quick complete | CellDescriptor::compute_d1, compute_d2, new, reference_count, level_mask, is_exotic, byte_len, is_aligned | every size 0..=1023, reference count, mask, flag
#[kani::proof]
fn c06_descriptor_encodes() {
    let (bits, refs, mask, ex): (u16, u8, u8, bool) = kani::any();
    kani::assume(bits <= 1023 && refs <= 4 && mask < 8);
    let d1 = CellDescriptor::compute_d1(LevelMask::new(mask), ex, refs);
    let d2 = CellDescriptor::compute_d2(bits);
    // d1 = refs + 8*exotic + 32*level mask, d2 = floor(bits/8) + ceil(bits/8)
    assert!(d1 as u32 == refs as u32 + 8 * ex as u32 + 32 * mask as u32);
    assert!(d2 as u32 == bits as u32 / 8 + (bits as u32 + 7) / 8);
    let d = CellDescriptor::new([d1, d2]);
    assert!(d.reference_count() == refs);
    assert!(d.level_mask() == LevelMask::new(mask) && d.level_mask().to_byte() == mask);
    assert!(d.is_exotic() == ex);
    assert!(!d.store_hashes());
    assert!(d.byte_len() as u32 == (bits as u32 + 7) / 8);
    assert!(d.is_aligned() == (bits % 8 == 0));
    assert!(!d.is_absent());
}

//@ C06 quick complete | CellDescriptor::{cell_type, hash_count, is_pruned_branch, is_library, is_merkle, is_absent, store_hashes, virtualize} | all 65536 descriptors
#[kani::proof]
fn c06_descriptor_decodes() {
    let b: [u8; 2] = kani::any();
    let d = CellDescriptor::new(b);
    let refs = b[0] & 7;
    let ex = b[0] & 8 != 0;
    let mask = b[0] >> 5;
    assert!(d.d1 == b[0] && d.d2 == b[1]);
    let t = if !ex {
        CellType::Ordinary
    } else if refs == 0 {
        if mask == 0 { CellType::LibraryReference } else { CellType::PrunedBranch }
    } else if refs == 1 {
        CellType::MerkleProof
    } else {
        CellType::MerkleUpdate
    };
    assert!(d.cell_type() == t);
    let pruned = matches!(t, CellType::PrunedBranch);
    let lib = matches!(t, CellType::LibraryReference);
    let merkle = matches!(t, CellType::MerkleProof | CellType::MerkleUpdate);
    assert!(d.is_exotic() == ex && t.is_exotic() == ex);
    assert!(d.is_pruned_branch() == pruned && t.is_pruned_branch() == pruned);
    assert!(d.is_library() == lib && t.is_library() == lib);
    assert!(d.is_merkle() == merkle && t.is_merkle() == merkle);
    assert!(d.hash_count() == if pruned { 1 } else { 1 + pop(mask) });
    assert!(d.hash_count() >= 1 && d.hash_count() <= 4);
    assert!(d.store_hashes() == (b[0] & 16 != 0));
    assert!(d.is_absent() == (b[0] == 15));
    assert!(d.reference_count() == refs);
    assert!(d.level_mask().to_byte() == mask);
    assert!(d.byte_len() as u32 == (b[1] as u32 + 1) / 2);
    assert!(d.is_aligned() == (b[1] % 2 == 0));
    let off: u8 = kani::any();
    kani::assume(off <= 3);
    let v = d.virtualize(off);
    assert!(v.d2 == b[1] && v.d1 & 0x1f == b[0] & 0x1f, "virtualization touches only the level mask");
    assert!(v.level_mask().to_byte() == mask >> off);
    assert!(v.level_mask() == d.level_mask().virtualize(off));
}

//@ C06 quick complete | LevelMask::{new, from_level, level, hash_index, contains, virtualize, to_byte, is_empty, bitor, into_iter} | all masks and levels
#[kani::proof]
#[kani::unwind(6)]
fn c06_level_mask() {
    let raw: u8 = kani::any();
    let m = LevelMask::new(raw);
    let mask = raw & 7;
    assert!(m.to_byte() == mask && u8::from(m) == mask && m == mask);
    assert!(m.is_empty() == (mask == 0));
    assert!(LevelMask::EMPTY.to_byte() == 0);
    assert!(m.level() == pop(mask));
    let l: u8 = kani::any();
    // level n includes the n lower levels
    assert!(LevelMask::from_level(l).to_byte() == if l >= 3 { 7 } else { (1u8 << l) - 1 });
    // hash index = number of significant levels among 1..=l
    let sig = if l >= 3 { mask } else { mask & ((1u8 << l) - 1) };
    assert!(m.hash_index(l) == pop(sig));
    if l <= 3 {
        assert!(m.contains(l) == (l == 0 || (mask >> (l - 1)) & 1 == 1));
        assert!(m.virtualize(l).to_byte() == mask >> l);
    }
    let o: u8 = kani::any();
    let mut u = m;
    u |= LevelMask::new(o);
    assert!(u == m | LevelMask::new(o) && u.to_byte() == mask | (o & 7));
    // iteration: level 0 and then exactly the significant levels, ascending
    let mut it = m.into_iter();
    let mut n = 0;
    let mut level = 0u8;
    while level <= 3 {
        if level == 0 || (mask >> (level - 1)) & 1 == 1 {
            assert!(it.size_hint() == (1 + pop(mask) as usize - n, Some(1 + pop(mask) as usize - n)));
            assert!(it.next() == Some(level));
            n += 1;
        }
        level += 1;
    }
    assert!(it.next().is_none() && it.is_empty());
}

//@ C06 quick complete | Size::{fits_into_cell, saturating_add, saturating_sub, is_zero} | all sizes
#[kani::proof]
fn c06_size() {
    let a = Size { bits: kani::any(), refs: kani::any() };
    let b = Size { bits: kani::any(), refs: kani::any() };
    assert!(a.fits_into_cell() == (a.bits <= 1023 && a.refs <= 4));
    assert!(a.is_zero() == (a.bits == 0 && a.refs == 0));
    let s = a.saturating_add(b);
    let t = a.bits as u32 + b.bits as u32;
    assert!(s.bits as u32 == if t > 65535 { 65535 } else { t });
    let t = a.refs as u32 + b.refs as u32;
    assert!(s.refs as u32 == if t > 255 { 255 } else { t });
    let s = a.saturating_sub(b);
    assert!(s.bits == if a.bits > b.bits { a.bits - b.bits } else { 0 });
    assert!(s.refs == if a.refs > b.refs { a.refs - b.refs } else { 0 });
}
