// Replays a counterexample of the MIR engine (tools/mirspec.py) against the real code.
// Constants are filled in by tools/mir_smt.py. Exit status: 0 property holds for these values,
// 101 it does not (message says what), 77 the state cannot be set up here.
#![feature(alloc_error_hook)]
#![allow(dead_code, unused, overflowing_literals)]
use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

@CONSTS@

type S = AlignedVec<SA, MVA, VA, MAX>;
#[repr(C, align(@TA@))]
struct T([u8; TS]);

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn _exit(code: i32) -> !;
}

fn fail(msg: &str) -> ! {
    TRACK.store(false, Relaxed);
    println!("property does not hold: {}", msg);
    unsafe { _exit(101) }
}
fn cannot(msg: &str) -> ! {
    TRACK.store(false, Relaxed);
    println!("state cannot be set up: {}", msg);
    unsafe { _exit(77) }
}

static TRACK: AtomicBool = AtomicBool::new(false);
static BLOCK_PTR: AtomicUsize = AtomicUsize::new(0);
static BLOCK_SIZE: AtomicUsize = AtomicUsize::new(0);
static FAKE: AtomicBool = AtomicBool::new(false);
static EVENTS: AtomicUsize = AtomicUsize::new(0);

// Failing allocator
static FAILING: AtomicBool = AtomicBool::new(false);
static REFUSED: AtomicUsize = AtomicUsize::new(0);
static REFUSED_SIZE: AtomicUsize = AtomicUsize::new(0);
static STORAGE: AtomicUsize = AtomicUsize::new(0);
fn refuse(size: usize) -> *mut u8 {
    REFUSED.fetch_add(1, Relaxed);
    REFUSED_SIZE.store(size, Relaxed);
    std::ptr::null_mut()
}
/// Called where the failure is reported
fn reported(l: Layout) {
    FAILING.store(false, Relaxed);
    if REFUSED.load(Relaxed) == 0 { fail("reports a failure which did not happen"); }
    if REFUSED.load(Relaxed) > 1 { fail("asks again after a failure"); }
    if l.size() != REFUSED_SIZE.load(Relaxed) || l.align() != SA {
        fail(&format!("reports {:?} though {} bytes aligned to {} were asked for", l, REFUSED_SIZE.load(Relaxed), SA));
    }
    if STORAGE.load(Relaxed) != 0 {
        let s = unsafe { std::ptr::read(STORAGE.load(Relaxed) as *const S) };
        invariant(&s, "after failure of the allocator");
        let (size, align) = match FN { "push_bytes" | "reserve" | "shrink_to_fit" => (1, 1), _ => (TS, TA) };
        let most = if matches!(FN, "reserve" | "shrink_to_fit") { POS as u128 } else { up(up(POS as u128, align), VA) };
        if s.pos() < POS || s.pos() as u128 > most { fail("position changed by failure of the allocator"); }
        contents(&s, POS.min(4096));
        drop(s);
    }
    if BLOCK_SIZE.load(Relaxed) != 0 { fail("block not released after failure of the allocator"); }
    println!("failure reported as it should be");
    unsafe { _exit(0) }
}

struct Ledger;
impl Ledger {
    unsafe fn get(&self, size: usize, align: usize) -> *mut u8 {
        if size <= 1 << 20 && align <= 1 << 20 {
            return System.alloc(Layout::from_size_align_unchecked(size, align));
        }
        if size < 1 << 44 && align <= 1 << 32 {
            let p = mmap(std::ptr::null_mut(), size + align, 3, 0x4022, -1, 0);
            if p as isize != -1 {
                return ((p as usize + align - 1) & !(align - 1)) as *mut u8;
            }
        }
        // No memory there
        FAKE.store(true, Relaxed);
        (if align < 4096 { 4096 } else { align }) as *mut u8
    }
}
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !TRACK.load(Relaxed) || l.align() != SA && l.size() < 256 {
            return System.alloc(l);
        }
        EVENTS.fetch_add(1, Relaxed);
        if BLOCK_SIZE.load(Relaxed) != 0 {
            fail("allocates while it has a block");
        }
        if l.size() == 0 || l.align() != SA || l.size() > (1usize << 63) - SA {
            fail("allocates with wrong size or alignment");
        }
        if FAILING.load(Relaxed) { return refuse(l.size()); }
        let p = self.get(l.size(), l.align());
        BLOCK_PTR.store(p as usize, Relaxed);
        BLOCK_SIZE.store(l.size(), Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !TRACK.load(Relaxed) || p as usize != BLOCK_PTR.load(Relaxed) {
            if TRACK.load(Relaxed) && l.align() == SA && SA > 16 {
                fail("releases a block it does not have");
            }
            if l.size() == 0 {
                fail("releases a block of no size");
            }
            return System.dealloc(p, l);
        }
        EVENTS.fetch_add(1, Relaxed);
        if BLOCK_SIZE.load(Relaxed) == 0 || l.size() != BLOCK_SIZE.load(Relaxed) || l.align() != SA {
            fail("releases with wrong size or alignment");
        }
        BLOCK_SIZE.store(0, Relaxed);
        BLOCK_PTR.store(0, Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !TRACK.load(Relaxed) || p as usize != BLOCK_PTR.load(Relaxed) {
            return System.realloc(p, l, n);
        }
        EVENTS.fetch_add(1, Relaxed);
        if BLOCK_SIZE.load(Relaxed) == 0 || l.size() != BLOCK_SIZE.load(Relaxed) || l.align() != SA {
            fail("resizes with wrong size or alignment");
        }
        if n == 0 || n > (1usize << 63) - SA {
            fail("resizes to size which is not allowed");
        }
        if FAILING.load(Relaxed) { return refuse(n); }
        let q = self.get(n, SA);
        if !FAKE.load(Relaxed) {
            let k = l.size().min(n).min(1 << 20);
            std::ptr::copy_nonoverlapping(p, q, k);
        }
        BLOCK_PTR.store(q as usize, Relaxed);
        BLOCK_SIZE.store(n, Relaxed);
        q
    }
}
#[global_allocator]
static ALLOC: Ledger = Ledger;

fn up(x: u128, a: usize) -> u128 {
    (x + a as u128 - 1) / a as u128 * a as u128
}
fn pattern(i: usize) -> u8 {
    (i % 251) as u8
}

fn invariant(s: &S, after: &str) {
    let (cap, pos, ptr) = (s.capacity(), s.pos(), s.as_ptr() as usize);
    if cap % MVA != 0 { fail(&format!("capacity {} not a multiple of {} {}", cap, MVA, after)); }
    if cap > MAX { fail(&format!("capacity {} over the limit {} {}", cap, MAX, after)); }
    if pos > cap { fail(&format!("position {} over capacity {} {}", pos, cap, after)); }
    if pos % VA != 0 { fail(&format!("position {} not a multiple of {} {}", pos, VA, after)); }
    if ptr % SA != 0 || ptr == 0 { fail(&format!("buffer {:#x} not aligned to {} {}", ptr, SA, after)); }
    if cap != BLOCK_SIZE.load(Relaxed) { fail(&format!("capacity {} but block of {} bytes {}", cap, BLOCK_SIZE.load(Relaxed), after)); }
    if cap != 0 && ptr != BLOCK_PTR.load(Relaxed) { fail(&format!("buffer is not the block {}", after)); }
}

fn contents(s: &S, n: usize) {
    if FAKE.load(Relaxed) || s.capacity() == 0 { return; }
    for i in 0..n {
        if unsafe { *s.as_ptr().add(i) } != pattern(i) { fail(&format!("content at {} changed", i)); }
    }
}

fn same(s: &S, ptr: usize) {
    if s.capacity() != CAP || s.as_ptr() as usize != ptr { fail("buffer changed"); }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if FAIL { std::alloc::set_alloc_error_hook(reported); }
    let has_self = !matches!(FN, "new" | "with_capacity" | "with_capacity_unchecked");
    if !has_self {
        TRACK.store(true, Relaxed);
        FAILING.store(FAIL, Relaxed);
        let r = catch_unwind(|| match FN {
            "new" => S::new(),
            "with_capacity" => S::with_capacity(N),
            _ => unsafe { S::with_capacity_unchecked(N) },
        });
        FAILING.store(false, Relaxed);
        if REFUSED.load(Relaxed) > 0 { fail("goes on without memory"); }
        let (cap, must_panic) = match FN {
            "new" => (0, false),
            "with_capacity" => (up(N as u128, MVA), N > MAX),
            _ => (N as u128, false),
        };
        match r {
            Ok(s) => {
                if must_panic { fail("does not panic"); }
                invariant(&s, "after creation");
                if s.capacity() as u128 != cap { fail(&format!("capacity {} instead of {}", s.capacity(), cap)); }
                if s.pos() != 0 { fail("position not 0"); }
                drop(s);
            }
            Err(_) => if !must_panic { fail("panics") },
        }
        if BLOCK_SIZE.load(Relaxed) != 0 { fail("block not released"); }
        TRACK.store(false, Relaxed);
        return;
    }

    // Source of pushes
    let bytes = if FN == "push_bytes" { N } else if matches!(FN, "push" | "write") { TS } else { TS.saturating_mul(N) };
    let writes = matches!(FN, "push" | "push_slice" | "push_bytes" | "write" | "write_slice");
    if writes && bytes > 1 << 32 { cannot("source too large"); }
    let src: *mut u8 = if writes {
        let p = unsafe { mmap(std::ptr::null_mut(), bytes + TA + 4096, 3, 0x4022, -1, 0) };
        if p as isize == -1 { cannot("source too large"); }
        let a = TA;
        let p = ((p as usize + a - 1) & !(a - 1)) as *mut u8;
        for i in 0..bytes.min(4096) { unsafe { *p.add(i) = 0x80 ^ pattern(i) }; }
        p
    } else { TA as *mut u8 };

    TRACK.store(true, Relaxed);
    let mut s = match catch_unwind(|| if CAP == 0 { S::new() } else { S::with_capacity(CAP) }) {
        Ok(s) => s,
        Err(_) => cannot("with_capacity panics"),
    };
    if s.capacity() != CAP { cannot("capacity"); }
    if POS % VA == 0 {
        if catch_unwind(AssertUnwindSafe(|| unsafe { s.set_pos(POS) })).is_err() { cannot("set_pos panics"); }
    } else {
        if POS > 1 << 24 || FAKE.load(Relaxed) { cannot("position too large"); }
        let v = vec![0u8; POS];
        unsafe { s.push_slice_unchecked(&v, POS) };
    }
    if s.pos() != POS { cannot("position"); }
    let filled = if FAKE.load(Relaxed) { 0 } else { POS.min(4096) };
    for i in 0..filled { unsafe { *s.as_mut_ptr().add(i) = pattern(i) }; }
    let ptr = s.as_ptr() as usize;
    if writes && FAKE.load(Relaxed) { cannot("no memory"); }

    let mut ret: usize = 0;
    if FAIL {
        STORAGE.store(&mut s as *mut S as usize, Relaxed);
        FAILING.store(true, Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(|| unsafe {
        match FN {
            "reserve" => s.reserve(N),
            "shrink_to_fit" => s.shrink_to_fit(),
            "clear" => s.clear(),
            "set_pos" => s.set_pos(AT),
            "align" => s.align(A),
            "align_for" => s.align_for::<T>(),
            "align_after" => s.align_after::<T>(),
            "align_after_any" => s.align_after_any(),
            "push_empty_slice" => ret = s.push_empty_slice::<T>(N),
            "push_empty" => ret = s.push_empty::<T>(),
            "push_slice" => ret = s.push_slice::<T>(std::slice::from_raw_parts(src as *const T, N)),
            "push" => ret = s.push::<T>(&*(src as *const T)),
            "push_bytes" => ret = s.push_bytes(std::slice::from_raw_parts(src, N)),
            "write_slice" => s.write_slice::<T>(AT, std::slice::from_raw_parts(src as *const T, N)),
            "write" => s.write::<T>(AT, &*(src as *const T)),
            "read" => ret = s.read::<T>(AT) as *const T as usize,
            "read_mut" => ret = s.read_mut::<T>(AT) as *mut T as usize,
            "ptr" => ret = s.ptr(AT) as usize,
            "mut_ptr" => ret = s.mut_ptr(AT) as usize,
            "as_ptr" => ret = s.as_ptr() as usize,
            "as_mut_ptr" => ret = s.as_mut_ptr() as usize,
            "capacity" => ret = s.capacity(),
            "pos" => ret = s.pos(),
            "drop" => std::ptr::drop_in_place(&mut s),
            _ => cannot("unknown function"),
        }
    }));

    FAILING.store(false, Relaxed);
    if REFUSED.load(Relaxed) > 0 { fail("goes on without memory"); }
    let ok = r.is_ok();
    if FN == "drop" {
        if !ok { fail("panics"); }
        if BLOCK_SIZE.load(Relaxed) != 0 { fail("block not released"); }
        std::mem::forget(s);
        TRACK.store(false, Relaxed);
        return;
    }
    let (cap, pos) = (s.capacity(), s.pos());
    let (size, align, n) = match FN {
        "push_bytes" => (1, 1, N as u128),
        "push" | "push_empty" | "write" => (TS, TA, 1),
        "reserve" => (1, 1, N as u128),
        _ => (TS, TA, N as u128),
    };
    let need = size as u128 * n;
    let start = up(POS as u128, align);
    invariant(&s, if ok { "afterwards" } else { "after panic" });
    if !matches!(FN, "write" | "write_slice") { contents(&s, filled); }
    let pushes = FN.starts_with("push");
    let must_panic = match FN {
        "reserve" => POS as u128 + N as u128 > MAX as u128,
        _ if pushes => start + need > MAX as u128,
        _ => false,
    };
    if must_panic && ok { fail(&format!("does not panic (capacity {}, position {}, result {})", cap, pos, ret)); }
    if !must_panic && !ok { fail("panics"); }
    if !ok {
        if pos < POS || pos as u128 > up(start, VA) || FN == "reserve" && pos != POS { fail("position changed by panic"); }
    } else {
        match FN {
            "reserve" => {
                if pos != POS { fail("position changed"); }
                if CAP - POS >= N {
                    if cap != CAP || s.as_ptr() as usize != ptr { fail("grows without need"); }
                } else {
                    let want = (POS as u128 + N as u128).next_power_of_two().max(MVA as u128);
                    let want = if want > MAX as u128 { MAX as u128 } else { want };
                    if cap as u128 != want { fail(&format!("capacity {} instead of {}", cap, want)); }
                }
            }
            "shrink_to_fit" => {
                if pos != POS { fail("position changed"); }
                if cap as u128 != up(POS as u128, MVA) { fail(&format!("capacity {}", cap)); }
            }
            "clear" => { same(&s, ptr); if pos != 0 { fail("position not 0"); } }
            "set_pos" => { same(&s, ptr); if pos != AT { fail("position"); } }
            "align" => { same(&s, ptr); if pos as u128 != up(POS as u128, A) { fail(&format!("position {}", pos)); } }
            "align_for" => { same(&s, ptr); if pos as u128 != up(POS as u128, TA) && TA > VA || TA <= VA && pos != POS { fail(&format!("position {}", pos)); } }
            "align_after" | "align_after_any" => { same(&s, ptr); if pos as u128 != up(POS as u128, VA) { fail(&format!("position {}", pos)); } }
            "read" | "read_mut" | "ptr" | "mut_ptr" => { same(&s, ptr); if pos != POS || ret != ptr + AT { fail("address"); } }
            "as_ptr" | "as_mut_ptr" => { same(&s, ptr); if pos != POS || ret != ptr { fail("address"); } }
            "capacity" => if ret != CAP { fail("capacity") },
            "pos" => if ret != POS { fail("position") },
            "write" | "write_slice" => {
                same(&s, ptr);
                if pos != POS { fail("position changed"); }
                let k = (need as usize).min(4096);
                for i in 0..k { if unsafe { *s.as_ptr().add(AT + i) } != 0x80 ^ pattern(i) { fail("not written"); } }
                for i in 0..filled { if (i < AT || i >= AT + need as usize) && unsafe { *s.as_ptr().add(i) } != pattern(i) { fail("other contents changed"); } }
            }
            _ if pushes && need == 0 => {
                if ret % align != 0 || ret > cap { fail(&format!("position {} for zero-sized value of alignment {}", ret, align)); }
                if pos < POS || pos as u128 > up(start, VA) { fail(&format!("position moved to {}", pos)); }
            }
            _ => {
                if ret % align != 0 { fail(&format!("position {} not aligned to {}", ret, align)); }
                if ret as u128 != start { fail(&format!("at {} instead of {}", ret, start)); }
                if pos as u128 != up(start + need, VA) { fail(&format!("position {} instead of {}", pos, up(start + need, VA))); }
                if writes {
                    for i in 0..bytes.min(4096) { if unsafe { *s.as_ptr().add(ret + i) } != 0x80 ^ pattern(i) { fail("not stored"); } }
                }
            }
        }
    }
    // Still usable
    drop(s);
    if BLOCK_SIZE.load(Relaxed) != 0 { fail("block not released in the end"); }
    TRACK.store(false, Relaxed);
}
