//! C06: storage stays aligned and in bounds.

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	Serializer,
};

use crate::{
	harnesses,
	kit::*,
	nd,
	state::{cfg::*, *},
};

fn create<S: ContiguousStorage>() {
	crate::hooks::fake(S::STORAGE_ALIGNMENT);
	let s = S::new();
	check_state(&s);
	assert!(s.pos() == 0 && s.capacity() == 0, "new storage is not empty");
	let cap: usize = nd::any();
	nd::assume(cap <= S::MAX_CAPACITY);
	let s = S::with_capacity(cap);
	check_state(&s);
	assert!(s.pos() == 0, "new storage is not empty");
	assert!(lowest(s.capacity(), cap, S::MAX_VALUE_ALIGNMENT), "capacity is not what was asked for, rounded up");
}

fn reserve<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (n, pos) = (nd::any::<usize>(), s.pos());
	nd::assume(n <= S::MAX_CAPACITY - pos);
	s.reserve(n);
	check_state(&s);
	assert!(s.pos() == pos, "position moved");
}

fn clear<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	s.clear();
	check_state(&s);
	assert!(s.pos() == 0, "not cleared");
}

fn shrink<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let pos = s.pos();
	s.shrink_to_fit();
	check_state(&s);
	assert!(s.pos() == pos, "position moved");
	assert!(lowest(s.capacity(), pos, S::MAX_VALUE_ALIGNMENT), "not shrunk to fit");
}

fn align<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let pos = s.pos();
	s.align_for::<T>();
	check_state(&s);
	assert!(lowest(s.pos(), pos, std::mem::align_of::<T>().max(S::VALUE_ALIGNMENT)), "not aligned for type");
	let pos = s.pos();
	s.align_after::<T>();
	s.align_after_any();
	check_state(&s);
	assert!(s.pos() == pos, "moved though aligned");
}

fn align_to<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (pos, a) = (s.pos(), nd::any::<usize>());
	nd::assume(a.is_power_of_two() && a >= S::VALUE_ALIGNMENT && a <= S::MAX_VALUE_ALIGNMENT);
	unsafe { s.align(a) };
	check_state(&s);
	assert!(lowest(s.pos(), pos, a), "not aligned");
}

fn empty<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (len, pos) = (nd::any::<usize>(), s.pos());
	nd::assume(fits::<T, S>(pos, len, S::MAX_CAPACITY));
	let at = s.push_empty_slice::<T>(len);
	check_state(&s);
	let align = std::mem::align_of::<T>();
	assert!(lowest(at, pos, align), "not lowest aligned position");
	assert!(lowest(s.pos(), at + std::mem::size_of::<T>() * len, S::VALUE_ALIGNMENT), "next position is wrong");
}

/// Slice of any length, at any position.
fn log_push<T: 'static, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
	let mut s = Log::<SA, MVA, VA, MAX>::any();
	let (slice, pos) = (any_slice::<T>(), s.pos);
	nd::assume(fits::<T, Log<SA, MVA, VA, MAX>>(pos, slice.len(), MAX));
	let at = s.push_slice(slice);
	if std::mem::size_of::<T>() == 0 {
		assert!(s.pos == pos, "position moved for ZSTs");
		return;
	}
	let size = std::mem::size_of_val(slice);
	assert!(s.pos <= s.capacity && s.pos % VA == 0, "position is illegal");
	assert!(lowest(at, pos, std::mem::align_of::<T>()), "not lowest aligned position");
	assert!(size == 0 || (s.pushed == 1 && s.pushed_at == at && s.pushed_size == size), "not stored where it says");
	assert!(lowest(s.pos, at + size, VA), "next position is wrong");
}

/// Real pushes, from any state of a small storage.
fn real_push<T: nd::Nd + Copy + Default + PartialEq, S: ContiguousStorage, const N: usize>(cap: usize) {
	let mut s = S::with_capacity(cap);
	let pos: usize = nd::any();
	nd::assume(pos <= s.capacity() && pos % S::VALUE_ALIGNMENT == 0);
	unsafe { s.set_pos(pos) };
	let v: [T; N] = nd::any_array();
	let at = s.push_slice(&v);
	check_state(&s);
	let align = std::mem::align_of::<T>();
	assert!(lowest(at, pos, align), "not lowest aligned position");
	assert!(lowest(s.pos(), at + std::mem::size_of_val(&v), S::VALUE_ALIGNMENT), "next position is wrong");
	std::mem::forget(s);
}

/// What a serializer says of its output is true of its storage.
macro_rules! constants {
	($name:ident $ser:ident) => {
		fn $name<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
			type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
				ser_raw::$ser<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;
			let storage = <Ser<SA, MVA, VA, MAX>>::STORAGE_ALIGNMENT;
			let (max, min) = (<Ser<SA, MVA, VA, MAX>>::MAX_VALUE_ALIGNMENT, <Ser<SA, MVA, VA, MAX>>::VALUE_ALIGNMENT);
			let limit = <Ser<SA, MVA, VA, MAX>>::MAX_CAPACITY;
			assert!(storage == SA && max == MVA && min == VA && limit == MAX, "serializer has other parameters than its storage");
			crate::hooks::fake(SA);
			let cap: usize = nd::any();
			nd::assume(cap <= limit);
			let ser = <Ser<SA, MVA, VA, MAX>>::with_capacity(cap);
			let s = ser.storage();
			check_state(s);
			assert!(s.as_ptr() as usize % storage == 0, "not aligned as the serializer says");
			assert!(s.pos() == 0 && s.pos() % min == 0, "new storage is not empty");
			assert!(lowest(s.capacity(), cap, max), "capacity is not what was asked for, rounded up");
			std::mem::forget(ser);
		}
	};
}
constants!(constants_complete CompleteSerializer);
constants!(constants_offset PtrOffsetSerializer);
constants!(constants_pure PureCopySerializer);

harnesses! {
	sholds q_constants_complete [kani::unwind(10)] { constants_complete::<64, 32, 4, 160>() }
	sholds q_constants_complete_b [kani::unwind(10)] { constants_complete::<32, 16, 8, { isize::MAX as usize - 31 }>() }
	sholds q_constants_offset [kani::unwind(10)] { constants_offset::<64, 32, 4, 96>() }
	sholds q_constants_offset_b [kani::unwind(10)] { constants_offset::<16, 8, 1, { isize::MAX as usize - 15 }>() }
	sholds q_constants_pure [kani::unwind(10)] { constants_pure::<64, 32, 4, 96>() }
	sholds q_constants_pure_b [kani::unwind(10)] { constants_pure::<128, 64, 2, 4096>() }
	sholds q_create_a [kani::unwind(10)] { create::<A>() }
	sholds q_create_f [kani::unwind(10)] { create::<F>() }
	sholds q_create_g [kani::unwind(10)] { create::<G>() }
	sholds q_reserve_a [kani::unwind(10)] { reserve::<A>() }
	sholds q_reserve_b [kani::unwind(10)] { reserve::<B>() }
	sholds q_reserve_c [kani::unwind(10)] { reserve::<C>() }
	sholds q_reserve_d [kani::unwind(10)] { reserve::<D>() }
	sholds q_reserve_e [kani::unwind(10)] { reserve::<E>() }
	sholds q_reserve_f [kani::unwind(10)] { reserve::<F>() }
	sholds q_reserve_g [kani::unwind(10)] { reserve::<G>() }
	sholds q_reserve_h [kani::unwind(10)] { reserve::<H>() }
	sholds q_reserve_i [kani::unwind(10)] { reserve::<I>() }
	sholds q_clear_a [kani::unwind(10)] { clear::<A>() }
	sholds q_clear_d [kani::unwind(10)] { clear::<D>() }
	sholds q_shrink_a [kani::unwind(10)] { shrink::<A>() }
	sholds q_shrink_b [kani::unwind(10)] { shrink::<B>() }
	sholds q_shrink_d [kani::unwind(10)] { shrink::<D>() }
	sholds q_shrink_e [kani::unwind(10)] { shrink::<E>() }
	sholds q_shrink_f [kani::unwind(10)] { shrink::<F>() }
	sholds q_shrink_g [kani::unwind(10)] { shrink::<G>() }
	sholds q_align_a [kani::unwind(10)] { align::<u128, A>() }
	sholds q_align_b [kani::unwind(10)] { align::<u32, B>() }
	sholds q_align_d [kani::unwind(10)] { align::<A32, D>() }
	sholds q_align_to_b [kani::unwind(10)] { align_to::<B>() }
	sholds q_align_to_d [kani::unwind(10)] { align_to::<D>() }
	sholds q_align_to_g [kani::unwind(10)] { align_to::<G>() }
	sholds q_empty_a_u8 [kani::unwind(10)] { empty::<u8, A>() }
	sholds q_empty_a_u128 [kani::unwind(10)] { empty::<u128, A>() }
	sholds q_empty_b_s24 [kani::unwind(10)] { empty::<S24, B>() }
	sholds q_empty_c_s6 [kani::unwind(10)] { empty::<S6, C>() }
	sholds q_empty_d_a32 [kani::unwind(10)] { empty::<A32, D>() }
	sholds q_empty_e_u32 [kani::unwind(10)] { empty::<u32, E>() }
	sholds q_empty_f_u8 [kani::unwind(10)] { empty::<[u8; 3], F>() }
	sholds q_empty_h_u64 [kani::unwind(10)] { empty::<u64, H>() }
	holds q_log_u8 [kani::unwind(10)] { log_push::<u8, 16, 16, 8, { isize::MAX as usize - 15 }>() }
	holds q_log_u16 [kani::unwind(10)] { log_push::<u16, 16, 16, 1, { isize::MAX as usize - 15 }>() }
	holds q_log_u128 [kani::unwind(10)] { log_push::<u128, 16, 16, 8, { isize::MAX as usize - 15 }>() }
	holds q_log_s24 [kani::unwind(10)] { log_push::<S24, 64, 32, 4, { isize::MAX as usize - 63 }>() }
	holds q_log_s6 [kani::unwind(10)] { log_push::<S6, 16, 16, 16, { isize::MAX as usize - 15 }>() }
	holds q_log_a32 [kani::unwind(10)] { log_push::<A32, 64, 32, 4, 192>() }
	holds q_log_b3 [kani::unwind(10)] { log_push::<[u8; 3], 16, 1, 1, 21>() }
	holds q_log_unit [kani::unwind(10)] { log_push::<(), 16, 16, 8, 48>() }
	holds q_real_u8 [kani::unwind(10)] { real_push::<u8, SDefault, 3>(48) }
	holds q_real_u16 [kani::unwind(10)] { real_push::<u16, SPacked, 3>(32) }
	holds q_real_u128 [kani::unwind(10)] { real_push::<u128, SDefault, 1>(32) }
	holds q_real_u32 [kani::unwind(10)] { real_push::<u32, SWide, 2>(32) }
	holds q_real_u64 [kani::unwind(10)] { real_push::<u64, SMixed, 2>(64) }
	holds q_real_none [kani::unwind(10)] { real_push::<u128, SPacked, 0>(32) }
}
