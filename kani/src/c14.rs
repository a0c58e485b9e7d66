//! C14: labels of dictionaries.
use crate::util::*;
use crate::*;
use std::mem::ManuallyDrop;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::Error;

/// The number of bits of the lengths of labels below `m`.
pub fn width(m: u16) -> u16 {
    16 - m.leading_zeros() as u16
}

macro_rules! labels {
    ($name:ident $w:ident) => {
        pub mod $name {
            use super::*;
            use bw::$w::*;

            /// The shortest label for `l` among the labels of up to `m` bits (`HmLabel` of the block scheme).
            pub fn label(l: Bits, m: u16) -> Bits {
                let (n, k) = (l.n, width(m));
                if n > 1 && k < 2 * n - 1 && l.uniform() {
                    Bits::num(0b110 | l.bit(0) as u128, 3).then(Bits::num(n as u128, k))
                } else if k < n {
                    Bits::num(0b10, 2).then(Bits::num(n as u128, k)).then(l)
                } else {
                    // at most 16 ones
                    Bits::num(((1u128 << n) - 1) << 1, n + 2).then(l)
                }
            }
            /// What is stored with a key: up to 8 bits.
            pub struct Value(pub Bits);
            impl Store for Value {
                fn store_into(&self, b: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
                    store_uint(b, (self.0.b[0] >> 120) as u64 >> (8 - self.0.n), self.0.n)
                }
            }
            pub fn slice(c: &Cell) -> CellSlice<'_> {
                CellSliceRange::verif_from_parts(0, c.bit_len(), 0, c.reference_count()).apply_allow_exotic(c)
            }
        }
    };
}
labels!(one one);
labels!(three three);

with_bits! { three
    //@ C14 quick complete | dict_insert (into an empty dictionary), write_label | any key of up to 256 bits, any value of up to 8 bits | c14_write
    #[kani::unwind(12)]
    fn c14_write() {
        use bw::three::*;
        use three::*;
        let key = Bits::any(256);
        let v = Value(Bits::any(8));
        let k = ManuallyDrop::new(cell(key, 0, [None, None]));
        let mut d = ManuallyDrop::new(None);
        let r = dict_insert(&mut d, &mut slice(&k), key.n, &v, SetMode::Set, &Pool);
        assert!(matches!(r, Ok(true)), "inserted");
        let Some(c) = &*d else { panic!("not empty") };
        let c = BCell::of(c.as_ref());
        assert!(c.refs == 0, "a leaf");
        assert!(c.bits().is(label(key, key.n).then(v.0)), "the label and the value");
    }
}
