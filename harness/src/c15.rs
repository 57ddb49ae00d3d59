//! C15: reserving space for later leaves exactly enough aligned space, or panics.

use std::mem;

use ser_raw::{
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer,
};

use crate::{
	harnesses, nd,
	state::{cfg::*, *},
};

fn check_space<T, S: ContiguousStorage>(s: &S, at: usize, before: usize, len: usize) {
	let size = mem::size_of::<T>() * len;
	assert!(at % mem::align_of::<T>() == 0, "position is not aligned for type");
	assert!(at >= before, "existing data would be overwritten");
	assert!(at - before < mem::align_of::<T>(), "more padding than needed");
	assert!(s.pos() >= at && s.pos() - at >= size, "not enough space");
	assert!(s.pos() - at - size < S::VALUE_ALIGNMENT, "more space than needed");
	assert!(s.pos() % S::VALUE_ALIGNMENT == 0, "next position is not aligned");
	assert!(s.pos() <= s.capacity(), "space is past capacity");
}

fn slice<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (len, pos) = (nd::any::<usize>(), s.pos());
	nd::assume(fits::<T, S>(pos, len, S::MAX_CAPACITY));
	let at = s.push_empty_slice::<T>(len);
	check_space::<T, S>(&s, at, pos, len);
}

fn one<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let pos = s.pos();
	nd::assume(fits::<T, S>(pos, 1, S::MAX_CAPACITY));
	let at = s.push_empty::<T>();
	check_space::<T, S>(&s, at, pos, 1);
}

fn serializers<T>(which: u8) {
	let mut s = any_state::<A>();
	let (len, pos) = (nd::any::<usize>(), s.pos());
	nd::assume(fits::<T, A>(pos, len, A::MAX_CAPACITY));
	let at = match which {
		0 => CompleteSerializer::from_storage(&mut s).push_empty_slice::<T>(len),
		1 => PtrOffsetSerializer::from_storage(&mut s).push_empty_slice::<T>(len),
		_ => PureCopySerializer::from_storage(&mut s).push_empty_slice::<T>(len),
	};
	check_space::<T, A>(&s, at, pos, len);
	let pos = s.pos();
	nd::assume(fits::<T, A>(pos, 1, A::MAX_CAPACITY));
	let at = match which {
		0 => CompleteSerializer::from_storage(&mut s).push_empty::<T>(),
		1 => PtrOffsetSerializer::from_storage(&mut s).push_empty::<T>(),
		_ => PureCopySerializer::from_storage(&mut s).push_empty::<T>(),
	};
	check_space::<T, A>(&s, at, pos, 1);
}

fn too_much<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let len: usize = nd::any();
	nd::assume(!fits::<T, S>(s.pos(), len, S::MAX_CAPACITY));
	s.push_empty_slice::<T>(len);
}

fn one_too_much<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	nd::assume(!fits::<T, S>(s.pos(), 1, S::MAX_CAPACITY));
	s.push_empty::<T>();
}

/// Data before and after space which is reserved and filled in later.
fn fill_later<T: nd::Nd + Copy + Default + PartialEq, S: ContiguousStorage + RandomAccessStorage, const N: usize>(cap: usize) {
	let mut s = S::with_capacity(cap);
	let (a, b): ([u8; 3], u64) = (nd::any_array(), nd::any());
	let at_a = s.push(&a);
	let end = s.pos();
	let at = s.push_empty_slice::<T>(N);
	check_space::<T, S>(&s, at, end, N);
	let at_b = s.push(&b);
	assert!(at_b >= at + N * mem::size_of::<T>(), "space is not kept free");
	let v: [T; N] = nd::any_array();
	unsafe {
		s.write_slice(at, &v);
		same_elements(s.read::<[u8; 3]>(at_a), &a);
		assert!(*s.read::<u64>(at_b) == b, "data after is changed");
		same_elements(s.read::<[T; N]>(at), &v);
	}
}

/// Everything stored before is still there.
fn keeps<T, S: ContiguousStorage + RandomAccessStorage>() {
	let mut s = S::with_capacity(32);
	let v: [u64; 4] = nd::any_array();
	s.push(&v);
	let at = s.push_empty::<T>();
	check_space::<T, S>(&s, at, 32, 1);
	same_elements(unsafe { s.read::<[u64; 4]>(0) }, &v);
}

harnesses! {
	sholds q_slice_u8_a [kani::unwind(10)] { slice::<u8, A>() }
	sholds q_slice_u16_b [kani::unwind(10)] { slice::<u16, B>() }
	sholds q_slice_u128_a [kani::unwind(10)] { slice::<u128, A>() }
	sholds q_slice_s24_c [kani::unwind(10)] { slice::<S24, C>() }
	sholds q_slice_s6_b [kani::unwind(10)] { slice::<S6, B>() }
	sholds q_slice_a32_d [kani::unwind(10)] { slice::<A32, D>() }
	sholds q_slice_u32_e [kani::unwind(10)] { slice::<u32, E>() }
	sholds q_slice_b3_f [kani::unwind(10)] { slice::<[u8; 3], F>() }
	sholds q_slice_u64_g [kani::unwind(10)] { slice::<u64, G>() }
	sholds q_slice_u64_h [kani::unwind(10)] { slice::<u64, H>() }
	sholds q_slice_u128_i [kani::unwind(10)] { slice::<u128, I>() }
	sholds q_slice_unit_a [kani::unwind(10)] { slice::<(), A>() }
	sholds q_one_u8_a [kani::unwind(10)] { one::<u8, A>() }
	sholds q_one_u128_b [kani::unwind(10)] { one::<u128, B>() }
	sholds q_one_s6_c [kani::unwind(10)] { one::<S6, C>() }
	sholds q_one_a32_d [kani::unwind(10)] { one::<A32, D>() }
	sholds q_one_u32_e [kani::unwind(10)] { one::<u32, E>() }
	sholds q_complete_u16 [kani::unwind(10)] { serializers::<u16>(0) }
	sholds q_complete_u128 [kani::unwind(10)] { serializers::<u128>(0) }
	sholds q_ptr_offset_u16 [kani::unwind(10)] { serializers::<u16>(1) }
	sholds q_ptr_offset_u128 [kani::unwind(10)] { serializers::<u128>(1) }
	sholds q_pure_copy_u16 [kani::unwind(10)] { serializers::<u16>(2) }
	sholds q_pure_copy_u128 [kani::unwind(10)] { serializers::<u128>(2) }
	holds q_fill_later_u8 [kani::unwind(10)] { fill_later::<u8, A, 3>(0) }
	holds q_fill_later_u16 [kani::unwind(10)] { fill_later::<u16, B, 2>(8) }
	holds q_fill_later_u32 [kani::unwind(10)] { fill_later::<u32, E, 1>(16) }
	holds q_fill_later_u64 [kani::unwind(10)] { fill_later::<u64, C, 2>(64) }
	holds q_fill_later_u128 [kani::unwind(10)] { fill_later::<u128, D, 2>(0) }
	holds q_keeps_u8 [kani::unwind(10)] { keeps::<u8, A>() }
	holds q_keeps_u64 [kani::unwind(10)] { keeps::<u64, B>() }
	holds q_keeps_big [kani::unwind(10)] { keeps::<[u64; 40], A>() }

	spanics p_u8_a [kani::unwind(10)] { too_much::<u8, A>() }
	spanics p_u16_b [kani::unwind(10)] { too_much::<u16, B>() }
	spanics p_u64_a [kani::unwind(10)] { too_much::<u64, A>() }
	spanics p_s24_c [kani::unwind(10)] { too_much::<S24, C>() }
	spanics p_a32_d [kani::unwind(10)] { too_much::<A32, D>() }
	spanics p_u32_e [kani::unwind(10)] { too_much::<u32, E>() }
	spanics p_b3_f [kani::unwind(10)] { too_much::<[u8; 3], F>() }
	spanics p_u64_g [kani::unwind(10)] { too_much::<u64, G>() }
	spanics p_s6_h [kani::unwind(10)] { too_much::<S6, H>() }
	spanics p_one_e [kani::unwind(10)] { one_too_much::<S24, E>() }
	spanics p_one_i [kani::unwind(10)] { one_too_much::<u128, I>() }
}
