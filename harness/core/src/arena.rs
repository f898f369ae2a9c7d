//! Places for pinned metrics at chosen addresses: densely packed, and exactly
//! 4 GiB apart (so that keys made from part of an address would collide).
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

pub const SLOT: usize = 4096;
pub const SLOTS: usize = 24;

pub struct Arena {
    /// what is in use of the packed page: start -> end
    packed: Mutex<BTreeMap<usize, usize>>,
    packed_at: usize,
    dense: usize,
    far: Vec<usize>,
}

impl Arena {
    /// Address of slot `i`, with room for `size` bytes (at most SLOT).
    pub fn at(&self, i: usize, size: usize) -> usize {
        if i % 2 == 0 {
            // as close together as alignment to 64 allows, per size
            let step = size.next_multiple_of(64);
            self.dense + (i / 2) * step.min(SLOT)
        } else {
            self.far[(i / 2) % self.far.len()]
        }
    }
    /// The first free place at or after `from` (modulo the page) that holds
    /// `size` bytes, right against its neighbours.
    pub fn pack(&self, from: usize, size: usize, align: usize) -> usize {
        let mut used = self.packed.lock().unwrap();
        let size = size.max(1);
        let mut at = (self.packed_at + from % (SLOT / 2)).next_multiple_of(align);
        // step over everything in the way
        while let Some((_, end)) = used.iter().find(|(s, e)| **s < at + size && at < **e) {
            at = end.next_multiple_of(align);
        }
        assert!(at + size <= self.packed_at + 4 * SLOT);
        used.insert(at, at + size);
        at
    }
    pub fn unpack(&self, at: usize) {
        self.packed.lock().unwrap().remove(&at);
    }
    pub fn far_count(&self) -> usize {
        self.far.len()
    }
}

fn map(at: usize, len: usize) -> Option<usize> {
    let p = unsafe {
        libc::mmap(
            at as *mut _,
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    (p != libc::MAP_FAILED).then_some(p as usize)
}

pub fn arena() -> &'static Arena {
    static A: OnceLock<Arena> = OnceLock::new();
    A.get_or_init(|| {
        let dense = map(0, SLOT * SLOTS).expect("mmap");
        let want = SLOTS / 2;
        let mut far = vec![];
        // pages at the same offset in different 4 GiB blocks; the address is
        // only a hint, so keep what is where it was asked to be
        let base = 0x1000_0000_0000usize + 0x7000;
        for k in 0..64 {
            let at = base + (k << 32);
            if let Some(p) = map(at, SLOT) {
                if p == at {
                    far.push(p);
                } else {
                    unsafe { libc::munmap(p as *mut _, SLOT) };
                }
            }
            if far.len() == want {
                break;
            }
        }
        while far.len() < want {
            far.push(map(0, SLOT).expect("mmap"));
        }
        Arena { packed: Mutex::new(BTreeMap::new()), packed_at: map(0, 4 * SLOT).expect("mmap"), dense, far }
    })
}
