//! C07: pushed data is stored exactly and never disturbed later.

use std::mem::{self, ManuallyDrop};

use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

use crate::{filled::*, harnesses, nd};

/// Stays where it is; moves away; moves away at growth after growth.
const STAY: &[usize] = &[0, 0, 0];
const MOVE: &[usize] = &[0, 1, 2];
const ANY: &[usize] = &[];

/// Push of `N` values: stored exactly, earlier data kept, source untouched.
fn push<S: Storage + ContiguousStorage, T: Copy, const N: usize>(moves: &'static [usize], push: fn(&mut S, &[T; N]) -> usize) {
	let (s, bytes) = filled::<S>(moves);
	let mut s = ManuallyDrop::new(s);
	let before = s.pos();
	let values: [T; N] = any_values();
	let copy = values;
	let pos = push(&mut *s, &values);
	kept(&*s, &bytes, before);
	let i: usize = nd::any();
	nd::assume(i < mem::size_of::<[T; N]>());
	assert!(byte(&*s, pos + i) == byte_of(&copy, i), "pushed data is stored wrongly");
	assert!(byte_of(&values, i) == byte_of(&copy, i), "source of push is modified");
	assert!(pos >= before && pos + mem::size_of::<[T; N]>() <= s.pos(), "push is outside of output");
}
fn one<S: Storage + ContiguousStorage, T: Copy>(moves: &'static [usize]) {
	push::<S, T, 1>(moves, |s, v| s.push(&v[0]))
}
fn slice<S: Storage + ContiguousStorage, T: Copy, const N: usize>(moves: &'static [usize]) {
	push::<S, T, N>(moves, |s, v| s.push_slice(v))
}
fn bytes<S: Storage + ContiguousStorage, const N: usize>(moves: &'static [usize]) {
	push::<S, u8, N>(moves, |s, v| s.push_bytes(v))
}
/// Part of a longer slice: neighbours in the source are not mixed up with it.
fn part<S: Storage + ContiguousStorage, T: Copy>(moves: &'static [usize]) {
	let (s, old) = filled::<S>(moves);
	let mut s = ManuallyDrop::new(s);
	let before = s.pos();
	let values: [T; 4] = any_values();
	let pos = s.push_slice(&values[1..3]);
	kept(&*s, &old, before);
	let i: usize = nd::any();
	nd::assume(i < mem::size_of::<[T; 2]>());
	assert!(byte(&*s, pos + i) == byte_of(&values[1..], i), "pushed data is stored wrongly");
}

/// Everything else keeps what is stored.
fn keeps<S: Storage + ContiguousStorage>(moves: &'static [usize], op: fn(&mut S)) {
	let (s, bytes) = filled::<S>(moves);
	let mut s = ManuallyDrop::new(s);
	let before = s.pos();
	op(&mut *s);
	kept(&*s, &bytes, before);
}
fn reserve<S: Storage + ContiguousStorage>(s: &mut S) {
	s.reserve(nd::any_in(0, 24))
}
fn shrink<S: Storage + ContiguousStorage>(s: &mut S) {
	s.shrink_to_fit()
}
fn shrink_grow<S: Storage + ContiguousStorage>(s: &mut S) {
	s.shrink_to_fit();
	s.reserve(8);
}
fn empty<S: Storage + ContiguousStorage, T>(s: &mut S) {
	s.push_empty::<T>();
}
fn empties<S: Storage + ContiguousStorage>(s: &mut S) {
	s.push_empty_slice::<u16>(nd::any_in(0, 12));
}
fn align<S: Storage + ContiguousStorage>(s: &mut S) {
	s.align_for::<u64>();
	s.align_after_any();
}
fn nothing<S: Storage + ContiguousStorage>(s: &mut S) {
	s.push(&());
	s.push_slice::<u32>(&[]);
	s.push_slice(&[(), ()]);
	s.push_bytes(&[]);
}
fn unchecked<S: Storage + ContiguousStorage>(s: &mut S) {
	if s.capacity() - s.pos() >= 3 {
		unsafe { s.push_slice_unchecked(&[1u8, 2, 3], 3) };
		s.align_after_any();
	}
}

/// A history of concrete shape: everything is as pushed in the end.
fn history<S: Storage + ContiguousStorage + RandomAccessStorage>(mut s: S, moves: &'static [usize]) {
	crate::hooks::arena(64, Some(moves));
	let (a, b, c, d): (u8, D3, [H3; 2], A16) = (nd::any(), any_values::<D3, 1>()[0], any_values(), any_values::<A16, 1>()[0]);
	let pa = s.push(&a);
	let pb = s.push(&b);
	s.reserve(100);
	let pc = s.push_slice(&c);
	s.push_empty::<u32>();
	s.shrink_to_fit();
	let pd = s.push(&d);
	let pe = s.push_bytes(&[a, 2, 3]);
	s.shrink_to_fit();
	unsafe {
		assert!(*s.read::<u8>(pa) == a, "stored data is changed");
		let out = s.read::<D3>(pb);
		for i in 0..3 {
			assert!(out.0[i] == b.0[i], "stored data is changed");
			assert!(s.read::<H3>(pc).0[i] == c[0].0[i], "stored data is changed");
			assert!(s.read::<H3>(pc + 6).0[i] == c[1].0[i], "stored data is changed");
		}
		let i = nd::any_in(0, 15);
		assert!(s.read::<A16>(pd).0[i] == d.0[i], "stored data is changed");
		assert!(*s.read::<u8>(pe) == a && *s.read::<u8>(pe + 1) == 2 && *s.read::<u8>(pe + 2) == 3, "stored data is changed");
	}
	mem::forget(s);
}

/// What the methods of a serializer push is where they say it is, also when more is pushed meanwhile.
pub mod through {
	use std::{cell::Cell, mem};

	use ser_raw::{
		pos::Addr,
		storage::{AlignedVec, ContiguousStorage, Storage},
		Serialize, Serializer,
	};

	use crate::{filled::*, kinds::*, kit::*, nd};

	struct Pushes {
		/// Is taken for the pointer to what is pushed.
		ptr: usize,
		/// First word likewise, to what is pushed meanwhile.
		a: [usize; 2],
		b: [u16; 3],
		c: u8,
		d: [usize; 2],
		at: Cell<[usize; 7]>,
	}
	impl<S: Serializer> Serialize<S> for Pushes {
		fn serialize_data(&self, s: &mut S) {
			let addr = || S::Addr::from_ref(&self.ptr);
			let (mut inner, mut innermost) = (0, 0);
			let p0 = s.push_and_process(&self.a, addr(), |s| {
				inner = s.push_slice(&self.b, S::Addr::from_ref(&self.a[0]));
				s.push_and_process_slice(&self.d, S::Addr::from_ref(&self.a[0]), |s| {
					innermost = s.push(&self.c, S::Addr::from_ref(&self.d[0]));
				});
			});
			let p3 = s.push_and_process_slice(&self.d, addr(), |s| {
				s.push_raw(&self.c);
			});
			let p4 = s.push_raw(&self.a[1]);
			let p5 = s.push_raw_slice(&self.b);
			let p6 = s.push_raw_bytes(&[self.c, 1, 2]);
			self.at.set([p0, inner, innermost, p3, p4, p5, p6]);
		}
	}

	pub fn run<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
		_: fn(K),
		mut storage: AlignedVec<SA, MVA, VA, MAX>,
		moves: &'static [usize],
	) where
		Pushes: Serialize<Owned<K, SA, MVA, VA, MAX>>,
	{
		crate::hooks::arena(64, Some(moves));
		let v = Pushes { ptr: nd::any(), a: nd::any_array(), b: nd::any_array(), c: nd::any(), d: nd::any_array(), at: Cell::new([0; 7]) };
		let before: u8 = nd::any();
		storage.push(&before);
		let (pos, storage) = K::on(storage).serialize(&v);
		let storage = mem::ManuallyDrop::new(storage);
		let at = v.at.get();
		unsafe {
			let out = storage.as_ptr();
			assert!(out.read() == before, "stored data is changed");
			let read = |n: usize| out.add(at[n]);
			assert!((read(0) as *const usize).add(1).read() == v.a[1] && (read(4) as *const usize).read() == v.a[1], "what is pushed is not at the position returned");
			let i = nd::any_in(0, 2);
			assert!((read(1) as *const u16).add(i).read() == v.b[i] && (read(5) as *const u16).add(i).read() == v.b[i], "what is pushed is not at the position returned");
			assert!(read(2).read() == v.c && read(6).read() == v.c, "what is pushed is not at the position returned");
			assert!(read(6).add(1).read() == 1 && read(6).add(2).read() == 2, "what is pushed is not at the position returned");
			let i = nd::any_in(0, 1);
			assert!((read(3) as *const usize).add(i).read() == v.d[i], "what is pushed is not at the position returned");
			let (a, b) = (&v.a[1] as *const usize as usize, &v as *const Pushes as usize);
			assert!((out.add(pos + (a - b)) as *const usize).read() == v.a[1], "value is not at the position returned");
		}
	}
	crate::harnesses! {
		sholds q_complete_default [kani::unwind(26)] { run(|_: Complete| (), FDefault::new(), &[0, 1, 2, 0]) }
		sholds q_complete_packed [kani::unwind(26)] { run(|_: Complete| (), FPacked::new(), &[0, 1, 0, 2]) }
		sholds q_complete_stay [kani::unwind(26)] { run(|_: Complete| (), FWide::new(), &[0]) }
		sholds q_offset_default [kani::unwind(26)] { run(|_: Offset| (), FDefault::new(), &[0, 1, 2, 0]) }
		sholds q_offset_packed [kani::unwind(26)] { run(|_: Offset| (), FPacked::new(), &[0, 1, 0, 2]) }
		sholds q_offset_stay [kani::unwind(26)] { run(|_: Offset| (), FWide::new(), &[0]) }
		sholds q_pure_default [kani::unwind(26)] { run(|_: Pure| (), FDefault::new(), &[0, 1, 2, 0]) }
		sholds q_pure_packed [kani::unwind(26)] { run(|_: Pure| (), FPacked::new(), &[0, 1, 0, 2]) }
		sholds q_pure_stay [kani::unwind(26)] { run(|_: Pure| (), FWide::new(), &[0]) }
	}
}

/// Same number of bytes in storage at `pos` as in `source`.
fn same<S: ContiguousStorage>(s: &S, pos: usize, source: &Plenty, size: usize) {
	let i = nd::any_in(0, size - 1);
	assert!(byte(s, pos + i) == source.0[i], "pushed data is stored wrongly");
}

/// A large push after a small one, then growth and shrinking: both are kept.
fn large<S: Storage + ContiguousStorage, T: Copy>(len: usize, unchecked: bool) {
	let mut s = ManuallyDrop::new(S::new());
	let first: [u8; 3] = any_values();
	let at = s.push_slice(&first);
	let source = plenty(mem::size_of::<T>() * len);
	let size = mem::size_of::<T>() * len;
	let pos = if unchecked {
		s.align_for::<T>();
		s.reserve(size);
		let pos = s.pos();
		unsafe { s.push_slice_unchecked(source.slice::<T>(len), size) };
		s.align_after::<T>();
		pos
	} else {
		s.push_slice(source.slice::<T>(len))
	};
	same(&*s, pos, &source, size);
	s.reserve(2 * size);
	same(&*s, pos, &source, size);
	s.push_bytes(&first);
	s.shrink_to_fit();
	same(&*s, pos, &source, size);
	let i = nd::any_in(0, 2);
	assert!(byte(&*s, at + i) == first[i], "stored data is changed");
}

harnesses! {
	sholds q_default_u32_stay [kani::unwind(50)] { one::<FDefault, u32>(STAY) }
	sholds q_default_u64_stay [kani::unwind(50)] { one::<FDefault, u64>(STAY) }
	sholds q_default_d3_stay [kani::unwind(50)] { one::<FDefault, D3>(STAY) }
	sholds q_packed_u8_stay [kani::unwind(50)] { one::<FPacked, u8>(STAY) }
	sholds q_packed_u16_stay [kani::unwind(50)] { one::<FPacked, u16>(STAY) }
	sholds q_packed_u64_stay [kani::unwind(50)] { one::<FPacked, u64>(STAY) }
	sholds q_packed_h3_stay [kani::unwind(50)] { one::<FPacked, H3>(STAY) }
	sholds q_packed_b5_stay [kani::unwind(50)] { one::<FPacked, B5>(STAY) }
	sholds q_packed_a16_stay [kani::unwind(50)] { one::<FPacked, A16>(STAY) }
	sholds q_mixed_u16_stay [kani::unwind(50)] { one::<FMixed, u16>(STAY) }
	sholds q_small_u64_stay [kani::unwind(50)] { one::<FSmall, u64>(STAY) }
	sholds q_slice_default_u16_3_stay [kani::unwind(50)] { slice::<FDefault, u16, 3>(STAY) }
	sholds q_slice_packed_u8_7_stay [kani::unwind(50)] { slice::<FPacked, u8, 7>(STAY) }
	sholds q_slice_packed_u32_2_stay [kani::unwind(50)] { slice::<FPacked, u32, 2>(STAY) }
	sholds q_slice_mixed_u64_3_stay [kani::unwind(50)] { slice::<FMixed, u64, 3>(STAY) }
	sholds q_slice_wide_h3_2_stay [kani::unwind(50)] { slice::<FWide, H3, 2>(STAY) }
	sholds q_slice_small_u8_1_stay [kani::unwind(50)] { slice::<FSmall, u8, 1>(STAY) }
	sholds q_part_default_u8_stay [kani::unwind(50)] { part::<FDefault, u8>(STAY) }
	sholds q_part_packed_u16_stay [kani::unwind(50)] { part::<FPacked, u16>(STAY) }
	sholds q_part_mixed_u32_stay [kani::unwind(50)] { part::<FMixed, u32>(STAY) }
	sholds q_bytes_default_stay [kani::unwind(50)] { bytes::<FDefault, 5>(STAY) }
	sholds q_bytes_packed_stay [kani::unwind(50)] { bytes::<FPacked, 9>(STAY) }
	sholds q_keeps_reserve_default_stay [kani::unwind(50)] { keeps(STAY, reserve::<FDefault>) }
	sholds q_keeps_shrink_default_stay [kani::unwind(50)] { keeps(STAY, shrink::<FDefault>) }
	sholds q_keeps_shrink_grow_default_stay [kani::unwind(50)] { keeps(STAY, shrink_grow::<FDefault>) }
	sholds q_keeps_empties_default_stay [kani::unwind(50)] { keeps(STAY, empties::<FDefault>) }
	sholds q_keeps_reserve_packed_stay [kani::unwind(50)] { keeps(STAY, reserve::<FPacked>) }
	sholds q_keeps_shrink_packed_stay [kani::unwind(50)] { keeps(STAY, shrink::<FPacked>) }
	sholds q_keeps_shrink_grow_packed_stay [kani::unwind(50)] { keeps(STAY, shrink_grow::<FPacked>) }
	sholds q_keeps_empties_packed_stay [kani::unwind(50)] { keeps(STAY, empties::<FPacked>) }
	sholds q_keeps_reserve_wide_stay [kani::unwind(50)] { keeps(STAY, reserve::<FWide>) }
	sholds q_keeps_shrink_wide_stay [kani::unwind(50)] { keeps(STAY, shrink::<FWide>) }
	sholds q_keeps_shrink_grow_wide_stay [kani::unwind(50)] { keeps(STAY, shrink_grow::<FWide>) }
	sholds q_keeps_empties_wide_stay [kani::unwind(50)] { keeps(STAY, empties::<FWide>) }
	sholds q_keeps_reserve_mixed_stay [kani::unwind(50)] { keeps(STAY, reserve::<FMixed>) }
	sholds q_keeps_shrink_mixed_stay [kani::unwind(50)] { keeps(STAY, shrink::<FMixed>) }
	sholds q_keeps_shrink_grow_mixed_stay [kani::unwind(50)] { keeps(STAY, shrink_grow::<FMixed>) }
	sholds q_keeps_empties_mixed_stay [kani::unwind(50)] { keeps(STAY, empties::<FMixed>) }
	sholds q_keeps_reserve_small_stay [kani::unwind(50)] { keeps(STAY, reserve::<FSmall>) }
	sholds q_keeps_shrink_small_stay [kani::unwind(50)] { keeps(STAY, shrink::<FSmall>) }
	sholds q_keeps_shrink_grow_small_stay [kani::unwind(50)] { keeps(STAY, shrink_grow::<FSmall>) }
	sholds q_keeps_empties_small_stay [kani::unwind(50)] { keeps(STAY, empties::<FSmall>) }
	sholds q_keeps_shrink_tiny_stay [kani::unwind(50)] { keeps(STAY, shrink::<FTiny>) }
	sholds q_default_u8_move [kani::unwind(50)] { one::<FDefault, u8>(MOVE) }
	sholds q_default_u32_move [kani::unwind(50)] { one::<FDefault, u32>(MOVE) }
	sholds q_default_u64_move [kani::unwind(50)] { one::<FDefault, u64>(MOVE) }
	sholds q_default_a16_move [kani::unwind(50)] { one::<FDefault, A16>(MOVE) }
	sholds q_default_d3_move [kani::unwind(50)] { one::<FDefault, D3>(MOVE) }
	sholds q_packed_u8_move [kani::unwind(50)] { one::<FPacked, u8>(MOVE) }
	sholds q_packed_u16_move [kani::unwind(50)] { one::<FPacked, u16>(MOVE) }
	sholds q_packed_u64_move [kani::unwind(50)] { one::<FPacked, u64>(MOVE) }
	sholds q_packed_h3_move [kani::unwind(50)] { one::<FPacked, H3>(MOVE) }
	sholds q_packed_b5_move [kani::unwind(50)] { one::<FPacked, B5>(MOVE) }
	sholds q_packed_a16_move [kani::unwind(50)] { one::<FPacked, A16>(MOVE) }
	sholds q_wide_u8_move [kani::unwind(50)] { one::<FWide, u8>(MOVE) }
	sholds q_wide_b5_move [kani::unwind(50)] { one::<FWide, B5>(MOVE) }
	sholds q_mixed_u16_move [kani::unwind(50)] { one::<FMixed, u16>(MOVE) }
	sholds q_mixed_a16_move [kani::unwind(50)] { one::<FMixed, A16>(MOVE) }
	sholds q_small_u64_move [kani::unwind(50)] { one::<FSmall, u64>(MOVE) }
	sholds q_small_b5_move [kani::unwind(50)] { one::<FSmall, B5>(MOVE) }
	sholds q_tiny_u8_move [kani::unwind(50)] { one::<FTiny, u8>(MOVE) }
	sholds q_slice_default_u16_3_move [kani::unwind(50)] { slice::<FDefault, u16, 3>(MOVE) }
	sholds q_slice_packed_u8_7_move [kani::unwind(50)] { slice::<FPacked, u8, 7>(MOVE) }
	sholds q_slice_packed_u32_2_move [kani::unwind(50)] { slice::<FPacked, u32, 2>(MOVE) }
	sholds q_slice_mixed_u64_3_move [kani::unwind(50)] { slice::<FMixed, u64, 3>(MOVE) }
	sholds q_slice_wide_h3_2_move [kani::unwind(50)] { slice::<FWide, H3, 2>(MOVE) }
	sholds q_slice_small_u8_1_move [kani::unwind(50)] { slice::<FSmall, u8, 1>(MOVE) }
	sholds q_part_default_u8_move [kani::unwind(50)] { part::<FDefault, u8>(MOVE) }
	sholds q_part_packed_u16_move [kani::unwind(50)] { part::<FPacked, u16>(MOVE) }
	sholds q_part_mixed_u32_move [kani::unwind(50)] { part::<FMixed, u32>(MOVE) }
	sholds q_bytes_default_move [kani::unwind(50)] { bytes::<FDefault, 5>(MOVE) }
	sholds q_bytes_packed_move [kani::unwind(50)] { bytes::<FPacked, 9>(MOVE) }
	sholds q_keeps_reserve_default_move [kani::unwind(50)] { keeps(MOVE, reserve::<FDefault>) }
	sholds q_keeps_shrink_default_move [kani::unwind(50)] { keeps(MOVE, shrink::<FDefault>) }
	sholds q_keeps_shrink_grow_default_move [kani::unwind(50)] { keeps(MOVE, shrink_grow::<FDefault>) }
	sholds q_keeps_empties_default_move [kani::unwind(50)] { keeps(MOVE, empties::<FDefault>) }
	sholds q_keeps_reserve_packed_move [kani::unwind(50)] { keeps(MOVE, reserve::<FPacked>) }
	sholds q_keeps_shrink_packed_move [kani::unwind(50)] { keeps(MOVE, shrink::<FPacked>) }
	sholds q_keeps_shrink_grow_packed_move [kani::unwind(50)] { keeps(MOVE, shrink_grow::<FPacked>) }
	sholds q_keeps_empties_packed_move [kani::unwind(50)] { keeps(MOVE, empties::<FPacked>) }
	sholds q_keeps_reserve_wide_move [kani::unwind(50)] { keeps(MOVE, reserve::<FWide>) }
	sholds q_keeps_shrink_wide_move [kani::unwind(50)] { keeps(MOVE, shrink::<FWide>) }
	sholds q_keeps_shrink_grow_wide_move [kani::unwind(50)] { keeps(MOVE, shrink_grow::<FWide>) }
	sholds q_keeps_empties_wide_move [kani::unwind(50)] { keeps(MOVE, empties::<FWide>) }
	sholds q_keeps_reserve_mixed_move [kani::unwind(50)] { keeps(MOVE, reserve::<FMixed>) }
	sholds q_keeps_shrink_mixed_move [kani::unwind(50)] { keeps(MOVE, shrink::<FMixed>) }
	sholds q_keeps_shrink_grow_mixed_move [kani::unwind(50)] { keeps(MOVE, shrink_grow::<FMixed>) }
	sholds q_keeps_empties_mixed_move [kani::unwind(50)] { keeps(MOVE, empties::<FMixed>) }
	sholds q_keeps_reserve_small_move [kani::unwind(50)] { keeps(MOVE, reserve::<FSmall>) }
	sholds q_keeps_shrink_small_move [kani::unwind(50)] { keeps(MOVE, shrink::<FSmall>) }
	sholds q_keeps_shrink_grow_small_move [kani::unwind(50)] { keeps(MOVE, shrink_grow::<FSmall>) }
	sholds q_keeps_empties_small_move [kani::unwind(50)] { keeps(MOVE, empties::<FSmall>) }
	sholds q_keeps_shrink_tiny_move [kani::unwind(50)] { keeps(MOVE, shrink::<FTiny>) }
	sholds q_keeps_empty_default [kani::unwind(50)] { keeps(MOVE, empty::<FDefault, u64>) }
	sholds q_keeps_align_default [kani::unwind(50)] { keeps(MOVE, align::<FDefault>) }
	sholds q_keeps_nothing_default [kani::unwind(50)] { keeps(MOVE, nothing::<FDefault>) }
	sholds q_keeps_unchecked_default [kani::unwind(50)] { keeps(MOVE, unchecked::<FDefault>) }
	sholds q_keeps_empty_packed [kani::unwind(50)] { keeps(MOVE, empty::<FPacked, u64>) }
	sholds q_keeps_align_packed [kani::unwind(50)] { keeps(MOVE, align::<FPacked>) }
	sholds q_keeps_nothing_packed [kani::unwind(50)] { keeps(MOVE, nothing::<FPacked>) }
	sholds q_keeps_unchecked_packed [kani::unwind(50)] { keeps(MOVE, unchecked::<FPacked>) }
	sholds q_keeps_empty_wide [kani::unwind(50)] { keeps(MOVE, empty::<FWide, u64>) }
	sholds q_keeps_align_wide [kani::unwind(50)] { keeps(MOVE, align::<FWide>) }
	sholds q_keeps_nothing_wide [kani::unwind(50)] { keeps(MOVE, nothing::<FWide>) }
	sholds q_keeps_unchecked_wide [kani::unwind(50)] { keeps(MOVE, unchecked::<FWide>) }
	sholds q_keeps_empty_mixed [kani::unwind(50)] { keeps(MOVE, empty::<FMixed, u64>) }
	sholds q_keeps_align_mixed [kani::unwind(50)] { keeps(MOVE, align::<FMixed>) }
	sholds q_keeps_nothing_mixed [kani::unwind(50)] { keeps(MOVE, nothing::<FMixed>) }
	sholds q_keeps_unchecked_mixed [kani::unwind(50)] { keeps(MOVE, unchecked::<FMixed>) }
	sholds q_keeps_empty_small [kani::unwind(50)] { keeps(MOVE, empty::<FSmall, u64>) }
	sholds q_keeps_align_small [kani::unwind(50)] { keeps(MOVE, align::<FSmall>) }
	sholds q_keeps_nothing_small [kani::unwind(50)] { keeps(MOVE, nothing::<FSmall>) }
	sholds q_keeps_unchecked_small [kani::unwind(50)] { keeps(MOVE, unchecked::<FSmall>) }
	sholds q_keeps_unchecked_tiny [kani::unwind(50)] { keeps(MOVE, unchecked::<FTiny>) }
	sholds q_history_default_stay [kani::unwind(26)] { history(FDefault::new(), &[0]) }
	sholds q_history_default_move [kani::unwind(26)] { history(FDefault::new(), &[0, 1, 2]) }
	sholds q_history_default_back [kani::unwind(26)] { history(FDefault::new(), &[0, 1, 0, 2, 1]) }
	sholds q_history_packed_stay [kani::unwind(26)] { history(FPacked::new(), &[0]) }
	sholds q_history_packed_move [kani::unwind(26)] { history(FPacked::new(), &[0, 1, 2]) }
	sholds q_history_packed_back [kani::unwind(26)] { history(FPacked::new(), &[0, 1, 0, 2, 1]) }
	sholds q_history_wide_stay [kani::unwind(26)] { history(FWide::new(), &[0]) }
	sholds q_history_wide_move [kani::unwind(26)] { history(FWide::new(), &[0, 1, 2]) }
	sholds q_history_wide_back [kani::unwind(26)] { history(FWide::new(), &[0, 1, 0, 2, 1]) }
	sholds q_history_mixed_stay [kani::unwind(26)] { history(FMixed::new(), &[0]) }
	sholds q_history_mixed_move [kani::unwind(26)] { history(FMixed::new(), &[0, 1, 2]) }
	sholds q_history_mixed_back [kani::unwind(26)] { history(FMixed::new(), &[0, 1, 0, 2, 1]) }
	sholds q_long_default_u8 [kani::unwind(50)] { slice::<FDefault, u8, 41>(MOVE) }
	sholds q_long_packed_u64 [kani::unwind(170)] { slice::<FPacked, u64, 20>(MOVE) }
	sholds q_long_mixed_u16 [kani::unwind(70)] { slice::<FMixed, u16, 33>(STAY) }
	sholds q_large_default_u8_300 [kani::unwind(310)] { large::<FDefault, u8>(300, false) }
	sholds q_large_packed_u8_1027 [kani::unwind(1030)] { large::<FPacked, u8>(1027, false) }
	sholds q_large_packed_u64_129 [kani::unwind(140)] { large::<FPacked, u64>(129, false) }
	sholds q_large_mixed_d3_43 [kani::unwind(140)] { large::<FMixed, D3>(43, false) }
	sholds q_large_default_u8_2051 [kani::unwind(520)] { large::<FDefault, u8>(2051, true) }
	sholds q_large_wide_u16_1025 [kani::unwind(520)] { large::<FWide, u16>(1025, false) }
	sholds t_any_default_u64 [kani::unwind(50)] { one::<FDefault, u64>(ANY) }
	sholds t_any_packed_h3 [kani::unwind(50)] { one::<FPacked, H3>(ANY) }
}
