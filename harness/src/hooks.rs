//! The allocator as seen by code under test.
//!
//! Under Kani these functions stub `std::alloc::*`; natively the global allocator
//! consults them. They only act on blocks of the alignment a harness has armed;
//! anything else goes to the real allocator.
//!
//! * `Fake`: one block at an arbitrary address which is never dereferenced, so that
//!   capacities can be arbitrary 64-bit numbers. Checks the allocator's contract.
//! * `Arena`: a few fixed areas. Resizing may stay in place or move to another
//!   area (perhaps one occupied earlier), as the solver chooses. Checks the contract.

use std::alloc::Layout;

use crate::nd;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
	Off,
	Fake,
	Arena,
}

pub struct Block {
	pub mode: Mode,
	/// Alignment of blocks which are handled here
	pub align: usize,
	/// Address, size and alignment of live block
	pub addr: usize,
	pub size: usize,
	pub live: bool,
	/// Which area
	pub area: usize,
	/// Number of calls so far
	pub allocs: usize,
	pub reallocs: usize,
	pub deallocs: usize,
	/// Fixed schedule of areas, if not chosen by solver
	pub schedule: Option<&'static [usize]>,
}

pub static mut BLOCK: Block = Block {
	mode: Mode::Off,
	align: 0,
	addr: 0,
	size: 0,
	live: false,
	area: 0,
	allocs: 0,
	reallocs: 0,
	deallocs: 0,
	schedule: None,
};

pub const AREA_SIZE: usize = 512;
#[repr(C, align(64))]
pub struct Area(pub [u64; AREA_SIZE / 8]);
pub const AREAS: usize = 3;
// Separate objects: comparing addresses within one is harder for the solver
pub static mut AREA_0: Area = Area([0xA5A5A5A5A5A5A5A5; AREA_SIZE / 8]);
pub static mut AREA_1: Area = Area([0xA5A5A5A5A5A5A5A5; AREA_SIZE / 8]);
pub static mut AREA_2: Area = Area([0xA5A5A5A5A5A5A5A5; AREA_SIZE / 8]);

/// Blocks of alignment `align` exist only in the mind of the solver.
pub fn fake(align: usize) {
	#[cfg(not(kani))]
	eprintln!("imaginary memory");
	unsafe {
		BLOCK.mode = Mode::Fake;
		BLOCK.align = align;
	}
}

/// Blocks of alignment `align` are in areas.
pub fn arena(align: usize, schedule: Option<&'static [usize]>) {
	unsafe {
		BLOCK.mode = Mode::Arena;
		BLOCK.align = align;
		BLOCK.schedule = schedule;
	}
}

pub fn block() -> &'static Block {
	unsafe { &*std::ptr::addr_of!(BLOCK) }
}

pub fn calls() -> usize {
	let b = block();
	b.allocs + b.reallocs + b.deallocs
}

/// All violations of the allocator's contract end here.
macro_rules! check {
	($ok:expr, $msg:literal) => {
		#[cfg(kani)]
		assert!($ok, $msg);
		#[cfg(not(kani))]
		if !$ok {
			#[allow(unused_unsafe)]
			unsafe {
				BLOCK.mode = Mode::Off
			};
			panic!($msg);
		}
	};
}

fn check_size(size: usize, align: usize) {
	check!(size != 0, "allocation of zero size requested");
	check!(size <= isize::MAX as usize - (align - 1), "allocation exceeds what an allocation may be");
}

unsafe fn place(size: usize) -> *mut u8 {
	let b = &mut *std::ptr::addr_of_mut!(BLOCK);
	b.size = size;
	match b.mode {
		Mode::Arena => {
			check!(size <= AREA_SIZE, "harness: area too small");
			let n = b.allocs + b.reallocs;
			b.area = match b.schedule {
				Some(s) => s[(n - 1) % s.len()],
				None => {
					let x: u8 = nd::any();
					nd::assume((x as usize) < AREAS);
					x as usize
				}
			};
			// Branches rather than one computed pointer: cheaper for the solver
			let p: *mut u8 = match b.area {
				0 => std::ptr::addr_of_mut!(AREA_0).cast(),
				1 => std::ptr::addr_of_mut!(AREA_1).cast(),
				_ => std::ptr::addr_of_mut!(AREA_2).cast(),
			};
			b.addr = p as usize;
			p
		}
		_ => {
			let k: usize = nd::any();
			nd::assume(k != 0 && k <= usize::MAX / b.align);
			b.addr = k * b.align;
			nd::assume(b.addr <= usize::MAX - size);
			b.addr as *mut u8
		}
	}
}

pub unsafe fn alloc(layout: Layout) -> Option<*mut u8> {
	let b = &mut *std::ptr::addr_of_mut!(BLOCK);
	if b.mode == Mode::Off || layout.align() != b.align {
		return None;
	}
	check!(!b.live, "allocation made while holding another");
	check_size(layout.size(), b.align);
	b.live = true;
	b.allocs += 1;
	Some(place(layout.size()))
}

pub unsafe fn realloc(p: *mut u8, layout: Layout, new_size: usize) -> Option<*mut u8> {
	let b = &mut *std::ptr::addr_of_mut!(BLOCK);
	if b.mode == Mode::Off || (layout.align() != b.align && p as usize != b.addr) {
		return None;
	}
	check!(b.live, "resize of block which is not live");
	check!(p as usize == b.addr, "resize names wrong block");
	check!(layout.align() == b.align, "resize names wrong alignment");
	check!(layout.size() == b.size, "resize names wrong size");
	check_size(new_size, b.align);
	b.reallocs += 1;
	let old_area = b.area;
	let q = place(new_size);
	if b.mode == Mode::Arena && b.area != old_area {
		let n = if layout.size() < new_size { layout.size() } else { new_size };
		std::ptr::copy_nonoverlapping(p, q, n);
		// Old block may not be relied on any more
		p.write_bytes(0xDD, layout.size());
	} else if b.mode == Mode::Arena && new_size < layout.size() {
		p.add(new_size).write_bytes(0xDD, layout.size() - new_size);
	}
	Some(q)
}

pub unsafe fn dealloc(p: *mut u8, layout: Layout) -> bool {
	let b = &mut *std::ptr::addr_of_mut!(BLOCK);
	if b.mode == Mode::Off || (layout.align() != b.align && p as usize != b.addr) {
		return false;
	}
	check!(b.live, "release of block which is not live");
	check!(p as usize == b.addr, "release names wrong block");
	check!(layout.align() == b.align, "release names wrong alignment");
	check!(layout.size() == b.size, "release names wrong size");
	b.live = false;
	b.deallocs += 1;
	true
}

#[cfg(kani)]
mod stubs {
	use std::alloc::Layout;

	extern "C" {
		fn malloc(size: usize) -> *mut u8;
		fn calloc(n: usize, size: usize) -> *mut u8;
		fn free(p: *mut u8);
	}

	pub unsafe fn alloc(layout: Layout) -> *mut u8 {
		match super::alloc(layout) {
			Some(p) => p,
			None => {
				let p = malloc(layout.size());
				kani::assume(!p.is_null());
				p
			}
		}
	}
	pub unsafe fn alloc_zeroed(layout: Layout) -> *mut u8 {
		match super::alloc(layout) {
			Some(p) => {
				if super::BLOCK.mode == super::Mode::Arena {
					p.write_bytes(0, layout.size());
				}
				p
			}
			None => {
				let p = calloc(1, layout.size());
				kani::assume(!p.is_null());
				p
			}
		}
	}
	pub unsafe fn realloc(p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
		match super::realloc(p, layout, new_size) {
			Some(q) => q,
			None => {
				let q = malloc(new_size);
				kani::assume(!q.is_null());
				let n = if layout.size() < new_size { layout.size() } else { new_size };
				std::ptr::copy_nonoverlapping(p, q, n);
				free(p);
				q
			}
		}
	}
	pub unsafe fn dealloc(p: *mut u8, layout: Layout) {
		if !super::dealloc(p, layout) {
			free(p)
		}
	}
}
#[cfg(kani)]
pub use stubs::{alloc as stub_alloc, alloc_zeroed as stub_alloc_zeroed, dealloc as stub_dealloc, realloc as stub_realloc};

/// Forget about the block so far, to start over with another storage.
pub fn reset() {
	unsafe {
		BLOCK.live = false;
	}
}
