//! Storage over real memory whose every byte is arbitrary and known, at an arbitrary
//! position. Growth may stay in place or move.

use std::{mem, ptr};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	util::aligned_max_capacity,
};

use crate::{hooks, nd};

pub type FDefault = AlignedVec<64, 16, 8, { aligned_max_capacity(64) }>;
pub type FPacked = AlignedVec<64, 16, 1, { aligned_max_capacity(64) }>;
pub type FWide = AlignedVec<64, 16, 16, { aligned_max_capacity(64) }>;
pub type FMixed = AlignedVec<64, 32, 4, { aligned_max_capacity(64) }>;
pub type FSmall = AlignedVec<64, 16, 8, 80>;
pub type FTiny = AlignedVec<64, 1, 1, 49>;

/// Capacity at the start.
pub const CAP: usize = 48;

#[derive(Clone, Copy)]
pub struct Bytes(pub [u8; CAP]);

/// Storage of capacity `CAP` (64 for `FMixed`), holding these bytes up to `CAP`.
pub fn filled<S: Storage + ContiguousStorage>(moves: &'static [usize]) -> (S, Bytes) {
	hooks::arena(64, if moves.len() == 0 { None } else { Some(moves) });
	let bytes = Bytes(nd::any_array());
	let mut s = S::with_capacity(CAP);
	unsafe { ptr::copy_nonoverlapping(bytes.0.as_ptr(), s.as_mut_ptr(), CAP) };
	let pos = nd::any_in(0, CAP);
	nd::assume(pos & (S::VALUE_ALIGNMENT - 1) == 0);
	unsafe { s.set_pos(pos) };
	(s, bytes)
}

pub fn byte<S: ContiguousStorage>(s: &S, i: usize) -> u8 {
	unsafe { s.as_ptr().add(i).read() }
}

/// Bytes below `end` are as they were.
pub fn kept<S: ContiguousStorage>(s: &S, bytes: &Bytes, end: usize) {
	let i: usize = nd::any();
	if i < end && i < CAP {
		assert!(byte(s, i) == bytes.0[i], "stored data is changed");
	}
}

/// Any byte of a value of `N` bytes, by index.
pub fn byte_of<T>(values: &[T], i: usize) -> u8 {
	unsafe { (values.as_ptr() as *const u8).add(i).read() }
}

/// `N` values of `T`, which has no padding, of arbitrary bytes.
pub fn any_values<T: Copy, const N: usize>() -> [T; N] {
	let mut v = mem::MaybeUninit::<[T; N]>::uninit();
	let p = v.as_mut_ptr() as *mut u8;
	let mut i = 0;
	while i < mem::size_of::<[T; N]>() {
		unsafe { p.add(i).write(nd::any()) };
		i += 1;
	}
	unsafe { v.assume_init() }
}

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct A16(pub [u8; 16]);
#[derive(Clone, Copy)]
pub struct B5(pub [u8; 5]);
#[derive(Clone, Copy)]
pub struct H3(pub [u16; 3]);
#[derive(Clone, Copy)]
pub struct D3(pub [u64; 3]);

/// Plenty of bytes, no two words of them alike.
pub const PLENTY: usize = 2080;
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct Plenty(pub [u8; PLENTY]);
const fn plenty_of_bytes() -> Plenty {
	let mut a = [0; PLENTY];
	let mut i = 0;
	while i < PLENTY {
		a[i] = ((i * 0x9E37_79B1) >> 13) as u8;
		i += 1;
	}
	Plenty(a)
}
static PATTERN: Plenty = plenty_of_bytes();

/// `PLENTY` known bytes, one of which, anywhere among the first `len`, is arbitrary.
pub fn plenty(len: usize) -> Plenty {
	let mut a = PATTERN;
	a.0[nd::any_in(0, len - 1)] = nd::any();
	a
}
impl Plenty {
	pub fn slice<T>(&self, len: usize) -> &[T] {
		assert!(mem::size_of::<T>() * len <= PLENTY && mem::align_of::<T>() <= 16);
		unsafe { std::slice::from_raw_parts(self.0.as_ptr().cast(), len) }
	}
}
