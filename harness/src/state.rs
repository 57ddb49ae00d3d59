//! Storage in an arbitrary legal state, whose memory is imaginary: capacity and
//! position are arbitrary 64-bit numbers. As every operation is checked from any
//! legal state to lead to a legal state, what is shown for one operation holds after
//! any number of them.

use std::mem;

use ser_raw::storage::{AlignedVec, ContiguousStorage, Storage};

use crate::{hooks, nd};

/// Names of configurations for imaginary storage.
pub mod cfg {
	use super::*;
	use ser_raw::util::{aligned_max_capacity, aligned_max_u32_capacity};

	pub type A = AlignedVec<16, 16, 8, { aligned_max_capacity(16) }>;
	pub type B = AlignedVec<16, 16, 1, { aligned_max_capacity(16) }>;
	pub type C = AlignedVec<16, 16, 16, { aligned_max_capacity(16) }>;
	/// Storage alignment > maximum value alignment > value alignment
	pub type D = AlignedVec<64, 32, 4, { aligned_max_capacity(64) }>;
	/// Capacity limit which is not a power of 2, and small
	pub type E = AlignedVec<16, 16, 8, 48>;
	/// No padding at all, odd limit
	pub type F = AlignedVec<16, 1, 1, 21>;
	/// Limit which is a power of 2
	pub type G = AlignedVec<4096, 128, 16, { aligned_max_u32_capacity(4096) }>;
	/// Limit just above a power of 2
	pub type H = AlignedVec<32, 8, 2, 264>;
	/// Limit = maximum value alignment
	pub type I = AlignedVec<64, 64, 8, 64>;
}

/// Storage with arbitrary capacity and position.
pub fn any_state<S: Storage>() -> S {
	hooks::fake(S::STORAGE_ALIGNMENT);
	let cap: usize = nd::any();
	nd::assume(cap <= S::MAX_CAPACITY && cap % S::MAX_VALUE_ALIGNMENT == 0);
	let mut s = S::with_capacity(cap);
	nd::assume(s.capacity() == cap);
	let pos: usize = nd::any();
	nd::assume(pos <= cap && pos % S::VALUE_ALIGNMENT == 0);
	unsafe { s.set_pos(pos) };
	s
}

/// What holds between any two operations.
pub fn check_state<S: ContiguousStorage>(s: &S) {
	assert!(s.pos() <= s.capacity(), "position past capacity");
	assert!(s.pos() % S::VALUE_ALIGNMENT == 0, "position is not aligned");
	assert!(s.capacity() % S::MAX_VALUE_ALIGNMENT == 0, "capacity is not aligned");
	assert!(s.capacity() <= S::MAX_CAPACITY, "capacity exceeds limit");
	assert!(s.as_ptr() as usize % S::STORAGE_ALIGNMENT == 0, "buffer is not aligned");
	assert!(!s.as_ptr().is_null(), "buffer is null");
}

/// `x` is the lowest multiple of `align` which is not below `from`.
pub fn lowest(x: usize, from: usize, align: usize) -> bool {
	x >= from && x - from < align && x % align == 0
}

/// Whether `len` x `T` fits after `pos` in a storage of capacity `limit`.
pub fn fits<T, S: Storage>(pos: usize, len: usize, limit: usize) -> bool {
	let align = if mem::align_of::<T>() > S::VALUE_ALIGNMENT { mem::align_of::<T>() } else { S::VALUE_ALIGNMENT };
	let start = match pos.checked_add(align - 1) {
		Some(x) => x / align * align,
		None => return false,
	};
	match mem::size_of::<T>().checked_mul(len) {
		Some(size) => match start.checked_add(size) {
			Some(end) => end <= limit,
			None => false,
		},
		None => false,
	}
}

#[derive(Clone, Copy)]
#[repr(C, align(32))]
pub struct A32(pub [u8; 32]);
#[derive(Clone, Copy)]
#[repr(C)]
pub struct S24(pub u64, pub u64, pub u64);
#[derive(Clone, Copy)]
#[repr(C)]
pub struct S6(pub u16, pub u16, pub u16);

/// Storage which remembers what it is asked to do, and checks that callers keep to
/// the contract of `Storage`. Everything the trait provides itself is run for real.
pub struct Log<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	pub capacity: usize,
	pub pos: usize,
	pub pushed: usize,
	pub pushed_at: usize,
	pub pushed_size: usize,
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Log<SA, MVA, VA, MAX> {
	pub fn any() -> Self {
		let capacity: usize = nd::any();
		nd::assume(capacity <= MAX && capacity % MVA == 0);
		let pos: usize = nd::any();
		nd::assume(pos <= capacity && pos % VA == 0);
		Self { capacity, pos, pushed: 0, pushed_at: 0, pushed_size: 0 }
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Log<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		Self { capacity: 0, pos: 0, pushed: 0, pushed_at: 0, pushed_size: 0 }
	}
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		assert!(capacity != 0 && capacity <= MAX && capacity % MVA == 0, "contract of with_capacity_unchecked");
		Self { capacity, pos: 0, pushed: 0, pushed_at: 0, pushed_size: 0 }
	}
	fn capacity(&self) -> usize {
		self.capacity
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		assert!(new_pos <= self.capacity, "contract of set_pos: past capacity");
		assert!(new_pos % VA == 0, "contract of set_pos: not aligned");
		self.pos = new_pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		assert!(self.pos <= self.capacity && self.capacity - self.pos >= size, "contract of push_slice_unchecked: no room");
		assert!(size == mem::size_of::<T>() * slice.len(), "contract of push_slice_unchecked: size");
		assert!(self.pos % mem::align_of::<T>() == 0, "contract of push_slice_unchecked: not aligned");
		self.pushed += 1;
		self.pushed_at = self.pos;
		self.pushed_size = size;
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		if additional > self.capacity - self.pos {
			assert!(additional <= MAX - self.pos, "panics: more reserved than limit allows");
			let capacity: usize = nd::any();
			nd::assume(capacity <= MAX && capacity % MVA == 0 && capacity >= self.pos + additional);
			self.capacity = capacity;
		}
	}
	fn shrink_to_fit(&mut self) {
		unimplemented!()
	}
}

/// Slice of arbitrary length which is not to be read.
pub fn any_slice<T: 'static>() -> &'static [T] {
	let len: usize = nd::any();
	let size = mem::size_of::<T>();
	nd::assume(size == 0 || len <= isize::MAX as usize / size);
	// Something real to point to, though it is much shorter
	let p = Box::leak(Box::new(mem::MaybeUninit::<T>::uninit())).as_ptr();
	unsafe { mem::transmute::<*const [T], &'static [T]>(std::ptr::slice_from_raw_parts(p, len)) }
}

/// Compare element by element (comparing arrays byte by byte needs more unrolling).
pub fn same_elements<T: PartialEq, const N: usize>(a: &[T; N], b: &[T; N]) {
	let mut i = 0;
	while i < N {
		assert!(a[i] == b[i], "stored data is changed");
		i += 1;
	}
}
