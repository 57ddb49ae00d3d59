//! Shared oracles, builders and types.

use std::{
	mem::{self, ManuallyDrop},
	num,
};

use num_bigint::{BigInt, BigUint};
use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	util::aligned_max_capacity,
};

use crate::nd;

// ---------------------------------------------------------------------------
// Storage configurations

/// Default configuration.
/// Where positions fit in 16 and 32 bits.
pub type SShort = AlignedVec<16, 16, 8, 4096>;
pub type SLimited = AlignedVec<16, 16, 8, { ser_raw::util::aligned_max_u32_capacity(16) }>;
pub type SDefault = AlignedVec<16, 16, 8, { aligned_max_capacity(16) }>;
/// No minimum alignment: every type gets its own padding.
pub type SPacked = AlignedVec<16, 16, 1, { aligned_max_capacity(16) }>;
/// Everything padded to the maximum.
pub type SWide = AlignedVec<16, 16, 16, { aligned_max_capacity(16) }>;
/// Storage alignment above value alignment, value alignment of 4.
pub type SMixed = AlignedVec<64, 32, 4, { aligned_max_capacity(64) }>;
/// Small capacity limit, not a power of 2.
pub type SSmall = AlignedVec<16, 16, 8, 48>;

// ---------------------------------------------------------------------------
// Output oracle

/// Independent model of where the parts of a value go: depth first, in order,
/// each part aligned, each part followed by padding up to the value alignment.
///
/// Positions are concrete, which lets the oracle read output at concrete offsets.
#[derive(Clone, Copy)]
pub struct Model {
	/// Start of output
	pub base: *const u8,
	/// End of what the model has placed so far
	pub pos: usize,
	/// Value alignment
	pub va: usize,
	/// What pointer fields are expected to contain
	pub ptrs: Ptr,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ptr {
	/// Address within output
	Addr,
	/// Position in output
	Offset,
	/// Same as input
	Verbatim,
}

impl Model {
	pub fn new<S: ContiguousStorage>(storage: &S, pos: usize, ptrs: Ptr) -> Self {
		Self { base: storage.as_ptr(), pos, va: S::VALUE_ALIGNMENT, ptrs }
	}

	/// Place `len` x `T`, return its position.
	pub fn place<T>(&mut self, len: usize) -> usize {
		let size = mem::size_of::<T>() * len;
		if mem::size_of::<T>() == 0 {
			return 0;
		}
		let align = mem::align_of::<T>();
		let pos = (self.pos + align - 1) / align * align;
		self.pos = (pos + size + self.va - 1) / self.va * self.va;
		pos
	}

	pub fn at<T>(&self, pos: usize) -> *const T {
		unsafe { self.base.add(pos) as *const T }
	}

	/// `ptr` is the pointer to what is at `pos`; `input` is what it was in input.
	pub fn check_ptr(&self, ptr: usize, pos: usize, input: usize) {
		match self.ptrs {
			Ptr::Addr => assert!(ptr == self.base as usize + pos, "pointer does not point to its target in output"),
			Ptr::Offset => assert!(ptr == pos, "pointer is not position of its target"),
			Ptr::Verbatim => assert!(ptr == input, "pointer is not copied verbatim"),
		}
	}
}

/// `out`, found in the output of a serializer, is a faithful copy of `self`, and
/// what it points to follows where the model says.
pub trait Same {
	fn same(&self, out: *const Self, m: &mut Model);
}

macro_rules! same_bits {
	($($t:ty),*) => {$(
		impl Same for $t {
			#[inline(always)]
			fn same(&self, out: *const Self, _m: &mut Model) {
				assert!(unsafe { out.read() } == *self, "value differs from input");
			}
		}
	)*};
}
same_bits!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! same_as {
	($($t:ty => $bits:ty),*) => {$(
		impl Same for $t {
			#[inline(always)]
			fn same(&self, out: *const Self, _m: &mut Model) {
				let a = unsafe { (self as *const Self as *const $bits).read() };
				let b = unsafe { (out as *const $bits).read() };
				assert!(a == b, "value differs from input");
			}
		}
	)*};
}
same_as!(f32 => u32, f64 => u64, bool => u8, char => u32);
same_as!(num::NonZeroU8 => u8, num::NonZeroU16 => u16, num::NonZeroU32 => u32, num::NonZeroU64 => u64);

impl Same for () {
	fn same(&self, _out: *const Self, _m: &mut Model) {}
}

impl<T: Same> Same for Box<T> {
	fn same(&self, out: *const Self, m: &mut Model) {
		let p = unsafe { (out as *const usize).read() };
		let input = &**self as *const T as usize;
		if mem::size_of::<T>() == 0 {
			assert!(p == input, "pointer in box of ZST differs");
			return;
		}
		let pos = m.place::<T>(1);
		m.check_ptr(p, pos, input);
		(**self).same(m.at(pos), m);
	}
}

/// Index of the (ptr, capacity, len) words of a `Vec`, found from a live one
/// rather than as `ser_raw` does.
pub fn vec_words<T>() -> (usize, usize, usize) {
	let mut store = mem::MaybeUninit::<T>::uninit();
	let v = ManuallyDrop::new(unsafe { Vec::<T>::from_raw_parts(store.as_mut_ptr(), 0, 1) });
	let w: [usize; 3] = unsafe { mem::transmute_copy(&v) };
	// `len` is the 0, `capacity` is the 1 (an address on the stack is neither)
	let (mut p, mut c, mut l) = (3, 3, 3);
	let mut i = 0;
	while i < 3 {
		match w[i] {
			0 => l = i,
			1 => c = i,
			_ => p = i,
		}
		i += 1;
	}
	(p, c, l)
}

/// Pointer, capacity and length words.
unsafe fn read_words(v: *const usize, words: (usize, usize, usize)) -> (usize, usize, usize) {
	(v.add(words.0).read(), v.add(words.1).read(), v.add(words.2).read())
}

/// Check the 3 words of a `Vec` or `String` in output. Returns position of contents.
fn same_header<T>(input: (usize, usize, usize), out: *const usize, words: (usize, usize, usize), m: &mut Model) -> usize {
	let (p, c, l) = unsafe { read_words(out, words) };
	let (in_p, in_c, in_l) = input;
	assert!(l == in_l, "length differs from input");
	if m.ptrs == Ptr::Addr {
		assert!(c == l, "capacity is not equal to length");
	} else {
		assert!(c == in_c, "capacity is not copied verbatim");
	}
	if in_l == 0 {
		if m.ptrs == Ptr::Addr {
			assert!(p == mem::align_of::<T>(), "pointer of empty collection is not dangling");
		} else {
			assert!(p == in_p, "pointer of empty collection is not copied verbatim");
		}
		return 0;
	}
	let pos = m.place::<T>(in_l);
	m.check_ptr(p, pos, in_p);
	pos
}

impl<T: Same> Same for Vec<T> {
	fn same(&self, out: *const Self, m: &mut Model) {
		if mem::size_of::<T>() == 0 {
			let (a, b) = (self as *const Self as *const usize, out as *const usize);
			for i in 0..3 {
				assert!(unsafe { a.add(i).read() == b.add(i).read() }, "vec of ZSTs altered");
			}
			return;
		}
		let input = unsafe { read_words(self as *const Self as *const usize, vec_words::<T>()) };
		let pos = same_header::<T>(input, out as *const usize, vec_words::<T>(), m);
		for i in 0..self.len() {
			self[i].same(m.at(pos + i * mem::size_of::<T>()), m);
		}
	}
}

impl Same for String {
	fn same(&self, out: *const Self, m: &mut Model) {
		// `String` is a `Vec<u8>`
		let input = unsafe { read_words(self as *const Self as *const usize, vec_words::<u8>()) };
		let pos = same_header::<u8>(input, out as *const usize, vec_words::<u8>(), m);
		let a = self.as_bytes();
		for i in 0..a.len() {
			a[i].same(m.at(pos + i), m);
		}
	}
}

impl<T: Same> Same for Option<T> {
	fn same(&self, out: *const Self, m: &mut Model) {
		let o = unsafe { &*(out as *const ManuallyDrop<Option<T>>) };
		match (self, &**o) {
			(None, None) => {}
			(Some(a), Some(b)) => {
				a.same(b, m)
			}
			_ => panic!("option differs from input"),
		}
	}
}

impl<T: Same, const N: usize> Same for [T; N] {
	fn same(&self, out: *const Self, m: &mut Model) {
		for i in 0..N {
			self[i].same(unsafe { (out as *const T).add(i) }, m);
		}
	}
}

macro_rules! same_tuple {
	($($t:ident $i:tt),+) => {
		impl<$($t: Same),+> Same for ($($t,)+) {
			fn same(&self, out: *const Self, m: &mut Model) {
				$( self.$i.same(unsafe { std::ptr::addr_of!((*out).$i) }, m); )+
			}
		}
	};
}
same_tuple!(A 0);
same_tuple!(A 0, B 1);
same_tuple!(A 0, B 1, C 2);
same_tuple!(A 0, B 1, C 2, D 3);
same_tuple!(A 0, B 1, C 2, D 3, E 4);
same_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

impl Same for BigUint {
	fn same(&self, out: *const Self, m: &mut Model) {
		// `BigUint` is a `Vec<u64>`
		let a: &ManuallyDrop<Vec<u64>> = unsafe { &*(self as *const Self as *const ManuallyDrop<Vec<u64>>) };
		let a: &Vec<u64> = a;
		a.same(out as *const Vec<u64>, m);
	}
}

impl Same for BigInt {
	fn same(&self, out: *const Self, m: &mut Model) {
		let o = unsafe { &*(out as *const ManuallyDrop<BigInt>) };
		assert!(self.sign() as u8 == o.sign() as u8, "sign differs from input");
		self.magnitude().same(o.magnitude(), m);
	}
}

/// Implement `Same` for structs.
macro_rules! same_struct {
	($t:ty { $($f:tt),* }) => {
		impl crate::kit::Same for $t {
			fn same(&self, out: *const Self, m: &mut crate::kit::Model) {
				let _ = (out, &m);
				$( self.$f.same(unsafe { std::ptr::addr_of!((*out).$f) }, m); )*
			}
		}
	};
}
pub(crate) use same_struct;

/// Check value which was serialized at `pos` in storage which was empty before.
pub fn check_same<T: Same, S: ContiguousStorage>(input: &T, pos: usize, storage: &S, ptrs: Ptr) {
	assert!(storage.pos() <= storage.capacity(), "position past capacity");
	let mut m = Model::new(storage, 0, ptrs);
	let expect = m.place::<T>(1);
	assert!(pos == expect, "position of value is wrong");
	input.same(m.at(expect), &mut m);
	assert!(storage.pos() == m.pos, "final position is wrong");
}

// ---------------------------------------------------------------------------
// Builders. Lengths are concrete (they decide the shape of the output), contents
// are symbolic. Built values may only be read, never grown or dropped.

/// `Vec` of the given values, reporting capacity `cap`, whose excess is fictional.
pub fn vec_with_cap<T, const N: usize>(vals: [T; N], cap: usize) -> Vec<T> {
	if mem::size_of::<T>() == 0 {
		mem::forget(vals);
		let mut v = Vec::new();
		unsafe { v.set_len(N) };
		return v;
	}
	if N == 0 {
		mem::forget(vals);
		// Points to real memory, as a `Vec` which has been emptied does
		let p = Box::into_raw(Box::new(mem::MaybeUninit::<T>::uninit())) as *mut T;
		return unsafe { Vec::from_raw_parts(p, 0, cap) };
	}
	let p = Box::into_raw(Box::new(vals)) as *mut T;
	unsafe { Vec::from_raw_parts(p, N, cap) }
}

/// `Vec` with an arbitrary legal capacity. If empty, capacity is not 0.
pub fn vec_any_cap<T, const N: usize>(vals: [T; N]) -> Vec<T> {
	let size = mem::size_of::<T>();
	let max = if size == 0 { usize::MAX } else { isize::MAX as usize / size };
	let min = if N == 0 { 1 } else { N };
	let cap = nd::any_in(min, max);
	vec_with_cap(vals, cap)
}

/// `Vec` with capacity equal to length.
pub fn vec_exact<T, const N: usize>(vals: [T; N]) -> Vec<T> {
	if N == 0 {
		mem::forget(vals);
		return Vec::new();
	}
	vec_with_cap(vals, N)
}

/// Vector of arbitrary integers, with arbitrary capacity.
pub fn any_vec<T: nd::Nd + Copy + Default, const N: usize>() -> Vec<T> {
	vec_any_cap(nd::any_array::<T, N>())
}

/// Vector of arbitrary integers, with some excess capacity.
pub fn slack_vec<T: nd::Nd + Copy + Default, const N: usize>() -> Vec<T> {
	vec_with_cap(nd::any_array::<T, N>(), N + 3)
}

fn ascii<const N: usize>() -> [u8; N] {
	let bytes: [u8; N] = nd::any_array();
	let mut i = 0;
	while i < N {
		nd::assume(bytes[i] < 128);
		i += 1;
	}
	bytes
}

/// `String` of N arbitrary ASCII bytes, with arbitrary capacity.
pub fn any_string<const N: usize>() -> String {
	unsafe { String::from_utf8_unchecked(vec_any_cap(ascii::<N>())) }
}

/// `String` of N arbitrary ASCII bytes, with some excess capacity.
pub fn slack_string<const N: usize>() -> String {
	unsafe { String::from_utf8_unchecked(vec_with_cap(ascii::<N>(), N + 2)) }
}

/// `Box` of arbitrary integer.
pub fn any_box<T: nd::Nd>() -> Box<T> {
	Box::new(nd::any())
}
