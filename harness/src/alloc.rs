//! Checking global allocator: every block carries a header and a trailing canary, fresh memory is
//! filled with 0xA5, freed memory with 0xDD and held back in a quarantine before it is reused.
//! That turns what the code under test may get wrong about ownership (a leak, a double free, a free
//! with another layout, a use after free, a write past the end) into something a check can observe
//! without a sanitizer runtime.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checked;

const LIVE: u64 = 0x11fe_b10c_0ddb_a11e;
const DEAD: u64 = 0xdead_b10c_0ddb_a11e;
const CANARY: u64 = 0xc0ff_ee00_5afe_c0de;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    pad: usize,
}
const HDR: usize = std::mem::size_of::<Header>();

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
/// 0 = none, else code of the first misuse seen
static FAULT: AtomicUsize = AtomicUsize::new(0);
static QUARANTINE: AtomicBool = AtomicBool::new(false);

const QN: usize = 1 << 13;
struct Quar {
    slots: [(usize, usize, usize); QN],
    pos: usize,
}
static mut QUAR: Quar = Quar { slots: [(0, 0, 0); QN], pos: 0 };
static QLOCK: AtomicBool = AtomicBool::new(false);

fn offset(layout: &Layout) -> usize {
    layout.align().max(HDR)
}
fn full(layout: &Layout) -> Layout {
    let off = offset(layout);
    unsafe { Layout::from_size_align_unchecked(off + layout.size() + 8, layout.align().max(16)) }
}

fn fault(code: usize) {
    let _ = FAULT.compare_exchange(0, code, Relaxed, Relaxed);
}

pub fn take_fault() -> Option<&'static str> {
    match FAULT.swap(0, Relaxed) {
        0 => None,
        1 => Some("double free"),
        2 => Some("free of a pointer that was never allocated"),
        3 => Some("free with a layout other than the allocated one"),
        4 => Some("write past the end of an allocation"),
        _ => Some("write to freed memory"),
    }
}

/// Number of live blocks and bytes of the whole process.
pub fn live() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn quarantine(on: bool) {
    QUARANTINE.store(on, Relaxed)
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        // runaway growth ends here, as an abort, and not at the sandbox's memory limit
        if BYTES.load(Relaxed) + layout.size() as i64 > 3 << 30 {
            return std::ptr::null_mut();
        }
        let base = System.alloc(full(&layout));
        if base.is_null() {
            return base;
        }
        let p = base.add(offset(&layout));
        let h = p.sub(HDR) as *mut Header;
        h.write(Header { magic: LIVE, size: layout.size(), align: layout.align(), pad: 0 });
        if QUARANTINE.load(Relaxed) {
            std::ptr::write_bytes(p, 0xA5, layout.size());
        }
        (p.add(layout.size()) as *mut u64).write_unaligned(CANARY);
        BLOCKS.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        BYTES.fetch_add(layout.size() as i64, Relaxed);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = p.sub(HDR) as *mut Header;
        match (*h).magic {
            LIVE => (),
            DEAD => return fault(1),
            _ => return fault(2),
        }
        // The block is freed by what it was allocated as, whatever the caller says
        let real = Layout::from_size_align_unchecked((*h).size, (*h).align);
        if real != layout {
            fault(3);
        }
        if (p.add(real.size()) as *const u64).read_unaligned() != CANARY {
            fault(4);
        }
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(real.size() as i64, Relaxed);
        (*h).magic = DEAD;
        let base = p.sub(offset(&real));
        if !QUARANTINE.load(Relaxed) {
            return System.dealloc(base, full(&real));
        }
        std::ptr::write_bytes(p, 0xDD, real.size());
        while QLOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop()
        }
        let q = &mut *std::ptr::addr_of_mut!(QUAR);
        let old = q.slots[q.pos];
        q.slots[q.pos] = (p as usize, real.size(), real.align());
        q.pos = (q.pos + 1) % QN;
        QLOCK.store(false, std::sync::atomic::Ordering::Release);
        if old.0 != 0 {
            let (p, l) = (old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
            for i in 0..old.1.min(64) {
                if *p.add(i) != 0xDD {
                    fault(5);
                    break;
                }
            }
            System.dealloc(p.sub(offset(&l)), full(&l));
        }
    }
}
