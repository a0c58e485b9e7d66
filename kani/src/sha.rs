//! SHA-256 as an uninterpreted function, for the proofs about *what* is hashed.
//!
//! The functions `feed` and `result` behind `update` and `finalize` are replaced by recorders: the stream of bytes fed to the
//! hasher is observed at an arbitrary position of an arbitrary hash (which is the same
//! as observing all of it), and the result of the i-th hash is an arbitrary value.
//! ASSUMES: sha2::Sha256 is a function of the bytes fed to it (its code is not verified; replaced by a recorder, sha.rs)

/// Which hash, and which byte of its input, is observed.
static mut SEL: (usize, usize) = (0, 0);
static mut SEEN: Option<u8> = None;
static mut POS: usize = 0;
static mut J: usize = 0;
static mut LENS: [usize; 4] = [0; 4];
static mut OUT: [[u8; 32]; 4] = [[0; 32]; 4];

pub struct Sha;

impl Sha {
    pub fn observe(j: usize, k: usize) {
        unsafe {
            SEL = (j, k);
            SEEN = None;
            POS = 0;
            J = 0;
            let h = || -> [u8; 32] { core::mem::transmute([kani::any::<u128>(), kani::any::<u128>()]) };
            OUT = [h(), h(), h(), h()];
        }
    }
    /// Number of finished hashes.
    pub fn count() -> usize {
        unsafe { J }
    }
    /// Length of the input of the j-th hash.
    pub fn len(j: usize) -> usize {
        unsafe { LENS[j] }
    }
    pub fn seen() -> Option<u8> {
        unsafe { SEEN }
    }
    /// Result of the j-th hash.
    pub fn out(j: usize) -> [u8; 32] {
        unsafe { OUT[j] }
    }
}

pub fn feed(d: &[u8]) {
    unsafe {
        if J == SEL.0 && POS <= SEL.1 && SEL.1 - POS < d.len() {
            SEEN = Some(d[SEL.1 - POS]);
        }
        POS += d.len();
    }
}
pub fn result() -> [u8; 32] {
    unsafe {
        assert!(J < 4, "sha: at most four hashes");
        LENS[J] = POS;
        POS = 0;
        J += 1;
        OUT[J - 1]
    }
}
