//! An allocator that, when armed on a thread, looks into every heap block handed back to it for given byte strings.
//! What a block holds at that moment is what stays behind in free memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::prelude::v1::*;

const MAX: usize = 24;
const LEN: usize = 16;

pub struct Watch;

std::thread_local! {
    static ARMED: Cell<usize> = const { Cell::new(0) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
    static NEEDLES: UnsafeCell<[[u8; LEN]; MAX]> = const { UnsafeCell::new([[0; LEN]; MAX]) };
    // index of the needle + 1, size of the block; number of hits; number of blocks looked at
    static FIRST: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static HITS: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: Cell<usize> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = ARMED.try_with(|a| a.get()).unwrap_or(0);
        if n > 0 && !PAUSED.with(|x| x.get()) {
            scan(p, l.size(), n);
        }
        System.dealloc(p, l)
    }
    // `realloc` is the default one: allocate, copy, and hand back the old block to `dealloc`
}

#[cold]
unsafe fn scan(p: *const u8, size: usize, n: usize) {
    BLOCKS.with(|b| b.set(b.get() + 1));
    if size < LEN {
        return;
    }
    NEEDLES.with(|ns| {
        let ns = &*ns.get();
        for (k, needle) in ns[..n].iter().enumerate() {
            let first = u64::from_le_bytes(needle[..8].try_into().expect("eight"));
            let second = u64::from_le_bytes(needle[8..].try_into().expect("eight"));
            for at in 0..=size - LEN {
                if (p.add(at) as *const u64).read_unaligned() == first && (p.add(at + 8) as *const u64).read_unaligned() == second {
                    HITS.with(|h| h.set(h.get() + 1));
                    FIRST.with(|f| {
                        if f.get().0 == 0 {
                            f.set((k + 1, size));
                        }
                    });
                    return;
                }
            }
        }
    })
}

#[global_allocator]
static ALLOC: Watch = Watch;

/// What was found: the first needle found and the size of the block, the number of blocks with needles, of blocks seen.
#[derive(Clone, Copy, Debug)]
pub struct Seen {
    pub first: Option<(usize, usize)>,
    pub hits: usize,
    pub blocks: usize,
}

/// Can the needle be told from other data by its first bytes?
pub fn distinctive(n: &[u8]) -> bool {
    n.len() >= LEN && {
        let mut s = [false; 256];
        n[..LEN].iter().for_each(|b| s[*b as usize] = true);
        s.iter().filter(|x| **x).count() >= 9
    }
}

/// Runs `f` with all needles (those that are distinctive) armed on this thread. Unless `whole`, only blocks freed
/// inside `scope` calls count.
pub fn watched<T>(needles: &[Vec<u8>], whole: bool, f: impl FnOnce() -> T) -> (T, Seen) {
    let good: Vec<&Vec<u8>> = needles.iter().filter(|n| distinctive(n)).take(MAX).collect();
    NEEDLES.with(|ns| unsafe {
        for (i, n) in good.iter().enumerate() {
            (*ns.get())[i].copy_from_slice(&n[..LEN]);
        }
    });
    FIRST.with(|x| x.set((0, 0)));
    HITS.with(|x| x.set(0));
    BLOCKS.with(|x| x.set(0));
    PAUSED.with(|x| x.set(!whole));
    let n = good.len();
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(0));
        }
    }
    ARMED.with(|a| a.set(n));
    let r = {
        let _d = Disarm;
        f()
    };
    let (k, size) = FIRST.with(|x| x.get());
    let first = (k > 0).then(|| (needles.iter().position(|x| x == good[k - 1]).expect("one of them"), size));
    (r, Seen { first, hits: HITS.with(|x| x.get()), blocks: BLOCKS.with(|x| x.get()) })
}

/// Blocks freed in here count even if the surrounding `watched` is not `whole`.
pub fn scope<T>(f: impl FnOnce() -> T) -> T {
    let old = PAUSED.with(|x| x.replace(false));
    let r = f();
    PAUSED.with(|x| x.set(old));
    r
}

/// Blocks freed in here do not count.
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let old = PAUSED.with(|x| x.replace(true));
    let r = f();
    PAUSED.with(|x| x.set(old));
    r
}

/// The forms in which a number may lie in memory, little- and big-endian; of each the lower part is looked for.
/// (The upper part says nothing: that of a totient, for one, is that of the public modulus.)
pub fn forms(le: &[u8]) -> Vec<Vec<u8>> {
    let low = le[..le.len().min(LEN)].to_vec();
    let mut be = low.clone();
    be.reverse();
    vec![low, be]
}
