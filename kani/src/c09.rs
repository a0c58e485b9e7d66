//! C09: decoding bags of cells.
use crate::c07::{Child, any_child};
use crate::util::*;
use std::mem::ManuallyDrop;
use std::sync::Arc;
use tycho_types::boc::de::{BocHeader, Error, Options};
use tycho_types::cell::*;

fn pop(m: u8) -> usize {
    ((m & 1) + (m >> 1 & 1) + (m >> 2 & 1)) as usize
}
/// The serialized cell at the start of `b`: (data offset, data length, total length), or the error.
fn raw(b: &[u8], at: usize, len: usize, ref_size: usize) -> Result<(usize, usize, usize), u8> {
    if len < 2 {
        return Err(0);
    }
    let (d1, d2) = (b[at], b[at + 1]);
    if d1 == 0x0f {
        return Err(1);
    }
    let refs = (d1 & 7) as usize;
    if refs > 4 {
        return Err(2);
    }
    let mask = d1 >> 5;
    let mut off = 2;
    if d1 & 16 != 0 {
        if d1 & 8 != 0 && refs == 0 && mask != 0 {
            return Err(3);
        }
        off += 34 * (1 + pop(mask));
    }
    let n = (d2 / 2 + d2 % 2) as usize;
    let total = off + n + refs * ref_size;
    if len < total {
        return Err(0);
    }
    if d2 % 2 == 1 && b[at + off + n - 1] & 0x7f == 0 {
        return Err(3);
    }
    Ok((off, n, total))
}
fn is(e: &Error, k: u8) -> bool {
    match k {
        0 => matches!(e, Error::UnexpectedEof),
        1 => matches!(e, Error::AbsentCellsNotSupported),
        2 => matches!(e, Error::InvalidRef),
        _ => matches!(e, Error::UnnormalizedCell),
    }
}

const MAX: usize = 2 + 4 * 34 + 128 + 16;

//@ C09 quick complete | CellParts::read_raw_cell | any bytes (a cell has at most 282), any reference size
#[kani::proof]
fn c09_read_raw_cell() {
    let b: [u8; MAX + 2] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= MAX + 2);
    let ref_size: usize = kani::any();
    kani::assume(1 <= ref_size && ref_size <= 4);
    let mut rest = &b[..len];
    let r = CellParts::read_raw_cell(&mut rest, ref_size);
    match (r, raw(&b, 0, len, ref_size)) {
        (Ok(c), Ok((_, _, total))) => {
            assert!(c.as_ptr() == b.as_ptr() && c.len() == total, "the cell is the front of the bytes");
            assert!(rest.len() == len - total && rest.as_ptr() == b[total..].as_ptr(), "the rest follows");
        }
        (Err(e), Err(k)) => {
            assert!(is(&e, k), "the reason is reported");
            assert!(rest.len() == len && rest.as_ptr() == b.as_ptr(), "nothing is consumed");
        }
        (Ok(_), Err(_)) => assert!(false, "malformed cells are refused"),
        (Err(_), Ok(_)) => assert!(false, "well-formed cells are read"),
    }
    kani::cover!(r.is_ok());
}

fn be(b: &[u8], at: usize, n: usize) -> usize {
    let mut x = 0;
    let mut i = 0;
    while i < n {
        x = x << 8 | b[at + i] as usize;
        i += 1;
    }
    x
}

/// A serialized cell with the first byte `d1` of at most `N` bytes read next to two cells.
fn from_raw<const N: usize>(d1: u8, ref_size: usize, top: usize) {
    let mut b: [u8; N] = kani::any();
    b[0] = d1;
    if top == 1 {
        b[1] = 1;
    }
    let refs = (d1 & 7) as usize;
    let off = if d1 & 16 != 0 { 2 + 34 * (1 + pop(d1 >> 5)) } else { 2 };
    let n = ((b[1] >> 1) + (b[1] & 1)) as usize;
    kani::assume(n <= top && off + top + refs * ref_size <= N);
    if b[1] % 2 == 1 {
        kani::assume(b[off + n - 1] & 0x7f != 0);
    }
    let count: u32 = kani::any();
    kani::assume(count >= 3);
    let kids: [Child; 2] = [any_child(), any_child()];
    let (k0, k1) = (Arc::new(kids[0]), Arc::new(kids[1]));
    let ptrs = [Arc::as_ptr(&k0), Arc::as_ptr(&k1)];
    let cells = ManuallyDrop::new([Cell::from(k0), Cell::from(k1)]);
    let r = ManuallyDrop::new(unsafe { CellParts::from_raw_cell(&b[..off + n + refs * ref_size], &*cells, count, ref_size) });
    // the first bad reference decides
    let mut bad = 0;
    let mut mask = 0;
    let mut want = [core::ptr::null(); 4];
    let mut i = 0;
    while i < refs {
        let x = be(&b, off + n + i * ref_size, ref_size);
        if bad != 0 {
        } else if x >= count as usize {
            bad = 1;
        } else if x == count as usize - 1 {
            mask |= kids[0].d1 >> 5;
            want[i] = ptrs[0];
        } else if x == count as usize - 2 {
            mask |= kids[1].d1 >> 5;
            want[i] = ptrs[1];
        } else {
            bad = 2;
        }
        i += 1;
    }
    match &*r {
        Ok(p) => {
            assert!(bad == 0, "bad references are refused");
            assert!(p.descriptor.d1 == b[0] && p.descriptor.d2 == b[1]);
            assert!(p.data.as_ptr() == b[off..].as_ptr() && p.data.len() == n, "the data lies behind the stored hashes");
            if b[1] % 2 == 0 {
                assert!(p.bit_len as usize == n * 8, "whole bytes");
            } else {
                let last = b[off + n - 1];
                let z = n * 8 - 1 - p.bit_len as usize;
                assert!(z < 7 && last >> z & 1 == 1 && last & ((1 << z) - 1) == 0, "the end tag gives the bit length");
            }
            assert!(p.bit_len <= 1023, "a cell has at most 1023 bits");
            assert!(p.children_mask.to_byte() == mask);
            assert!(p.references.len() == refs, "number of children");
            let mut i = 0;
            while i < refs {
                assert!(core::ptr::addr_eq(p.references.get(i as u8).unwrap().as_ref(), want[i]), "children are found by their index from the end");
                i += 1;
            }
        }
        Err(e) => {
            assert!(bad != 0, "good references are accepted");
            assert!(if bad == 1 { matches!(e, Error::InvalidRef) } else { matches!(e, Error::InvalidRefOrder) });
        }
    }
    kani::cover!(r.is_ok());
}
macro_rules! raws {
    ($($name:ident $n:literal, $d1:literal, $ref:literal, $top:literal;)*) => {$(
        #[kani::proof]
        #[kani::stub(std::sync::Arc::drop_slow, arc_drop_slow)]
        #[kani::unwind(6)]
        fn $name() {
            from_raw::<$n>($d1, $ref, $top)
        }
    )*};
}
raws! {
    //@ C09 quick bounded | CellParts::from_raw_cell | ordinary cell without references, any data | c09_from_raw0
    c09_from_raw0 130, 0, 1, 128;
    //@ C09 quick bounded | CellParts::from_raw_cell | level 3 cell with stored hashes and 1 reference of 4 bytes, up to 4 bytes of data | c09_from_raw1
    c09_from_raw1 146, 0b11110001, 4, 4;
    //@ C09 quick bounded | CellParts::from_raw_cell | 2 references of 3 bytes, up to 7 bits of data | c09_from_raw2
    c09_from_raw2 9, 0b01000010, 3, 1;
    //@ C09 quick bounded | CellParts::from_raw_cell | level 1 cell with stored hashes and 4 references of 2 bytes, up to 7 bits of data | c09_from_raw4
    c09_from_raw4 79, 0b00110100, 2, 1;
}

/// `SmallVec::with_capacity` and `push` within the inline capacity.
pub fn sv_with_capacity<A: smallvec::Array>(_: usize) -> smallvec::SmallVec<A> {
    smallvec::SmallVec::new()
}
pub fn sv_push<A: smallvec::Array>(v: &mut smallvec::SmallVec<A>, x: A::Item) {
    let n = v.len();
    kani::assume(n < v.inline_size());
    unsafe {
        v.as_mut_ptr().add(n).write(x);
        v.set_len(n + 1);
    }
}

static mut CRC_AT: (usize, usize) = (0, 0);
static mut CRC: u32 = 0;
/// Some function of the bytes: the harness sees over which bytes it was computed.
pub fn crc_of(d: &[u8]) -> u32 {
    unsafe {
        CRC_AT = (d.as_ptr() as usize, d.len());
        CRC
    }
}

/// Why a header is refused, in the order of the checks.
#[derive(PartialEq, Clone, Copy)]
enum No {
    Any,
}

struct Want {
    ref_size: usize,
    cells: usize,
    roots: usize,
    root: [usize; 4],
    cell: [(usize, usize); 4],
}
/// Reads a bag of cells by its TL-B layout.
fn parse(b: &[u8], len: usize, lo: Option<usize>, hi: Option<usize>) -> Result<Want, No> {
    let e = Err(No::Any);
    if len < 6 {
        return e;
    }
    let tag = be(b, 0, 4);
    let (flags, off_size) = (b[4], b[5] as usize);
    let generic = tag == 0xb5ee9c72;
    let (index, crc, cache, ref_size) = match tag {
        0xb5ee9c72 => (flags & 128 != 0, flags & 64 != 0, flags & 32 != 0, (flags & 7) as usize),
        0x68ff65f3 => (true, false, false, flags as usize),
        0xacc3a728 => (true, true, false, flags as usize),
        _ => return e,
    };
    if cache && !index || ref_size < 1 || ref_size > 4 || off_size < 1 || off_size > 8 {
        return e;
    }
    let mut at = 6;
    if len < at + 3 * ref_size + off_size {
        return e;
    }
    let cells = be(b, at, ref_size);
    let roots = be(b, at + ref_size, ref_size);
    let absent = be(b, at + 2 * ref_size, ref_size);
    at += 3 * ref_size;
    if roots == 0 || !generic && roots > 1 || absent != 0 || roots > cells {
        return e;
    }
    if roots < lo.unwrap_or(0) || roots > hi.unwrap_or(32) {
        return e;
    }
    let total = be(b, at, off_size);
    at += off_size;
    // every cell has two bytes, and all but the roots are referred to
    if total < cells * (2 + ref_size) - roots * ref_size {
        return e;
    }
    kani::assume(roots <= 2);
    let mut w = Want { ref_size, cells, roots, root: [0; 4], cell: [(0, 0); 4] };
    if total > len {
        return e;
    }
    if generic {
        if len < at + roots * ref_size {
            return e;
        }
        let mut i = 0;
        while i < roots {
            let r = be(b, at, ref_size);
            at += ref_size;
            if r >= cells {
                return e;
            }
            if i < 4 {
                w.root[i] = r;
            }
            i += 1;
        }
    }
    if index {
        if (len - at) / off_size < cells {
            return e;
        }
        at += cells * off_size;
    }
    let start = at;
    let mut i = 0;
    while i < cells {
        match raw(b, at, len - at, ref_size) {
            Ok((_, _, n)) => {
                if i < 4 {
                    w.cell[i] = (at, n);
                }
                at += n;
            }
            Err(_) => return e,
        }
        i += 1;
    }
    if at - start != total {
        return e;
    }
    if crc {
        if len - at < 4 {
            return e;
        }
        let c = b[at] as u32 | (b[at + 1] as u32) << 8 | (b[at + 2] as u32) << 16 | (b[at + 3] as u32) << 24;
        if c != unsafe { CRC } {
            return e;
        }
        unsafe { CRC_AT = (b.as_ptr() as usize, at) };
    }
    Ok(w)
}

fn decode<const N: usize>(tag: [u8; 4]) {
    let mut b: [u8; N] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= N);
    if tag[0] != 0 {
        b[0] = tag[0];
        b[1] = tag[1];
        b[2] = tag[2];
        b[3] = tag[3];
    } else {
        kani::assume(be(&b, 0, 4) != 0xb5ee9c72 && be(&b, 0, 4) != 0x68ff65f3 && be(&b, 0, 4) != 0xacc3a728);
    }
    unsafe {
        CRC = kani::any();
        CRC_AT = (0, 0);
    }
    let (lo, hi): (Option<usize>, Option<usize>) = kani::any();
    let want = parse(&b, len, lo, hi);
    let over = unsafe { CRC_AT };
    let r = ManuallyDrop::new(BocHeader::decode(&b[..len], &Options { min_roots: lo, max_roots: hi }));
    match (&*r, want) {
        (Ok(h), Ok(w)) => {
            assert!(unsafe { CRC_AT } == over, "the checksum covers all bytes before it");
            assert!(h.ref_size() == w.ref_size);
            assert!(h.roots().len() == w.roots && h.cells().len() == w.cells, "number of roots and cells");
            let i: usize = kani::any();
            if i < w.roots && i < 4 {
                assert!(h.roots()[i] as usize == w.root[i], "the root indices");
            }
            if i < w.cells && i < 4 {
                let c = h.cells()[i];
                assert!(c.len() == w.cell[i].1 && c.as_ptr() == unsafe { b.as_ptr().add(w.cell[i].0) }, "the bytes of the cells");
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => assert!(false, "malformed bags are refused"),
        (Err(_), Ok(_)) => assert!(false, "well-formed bags are read"),
    }
    kani::cover!(r.is_ok() || tag[0] == 0);
}
macro_rules! decodes {
    ($($name:ident $n:literal $tag:expr;)*) => {$(
        #[kani::proof]
        #[kani::stub(crc32c::crc32c, crc_of)]
        #[kani::stub(smallvec::SmallVec::with_capacity, sv_with_capacity)]
        #[kani::stub(smallvec::SmallVec::push, sv_push)]
        #[kani::unwind(10)]
        fn $name() {
            decode::<$n>($tag)
        }
    )*};
}
decodes! {
    //@ C09 quick bounded | de::BocHeader::decode | any bytes up to 18 behind the generic tag | c09_decode_generic
    c09_decode_generic 18 [0xb5, 0xee, 0x9c, 0x72];
    //@ C09 quick bounded | de::BocHeader::decode | any bytes up to 18 behind the indexed tag | c09_decode_indexed
    c09_decode_indexed 18 [0x68, 0xff, 0x65, 0xf3];
    //@ C09 quick bounded | de::BocHeader::decode | any bytes up to 24 behind the checksummed tag | c09_decode_crc
    c09_decode_crc 24 [0xac, 0xc3, 0xa7, 0x28];
    //@ C09 quick bounded | de::BocHeader::decode | any bytes behind an unknown tag | c09_decode_unknown
    c09_decode_unknown 12 [0, 0, 0, 0];
}
