//! C08: reservation guarantees space, grows geometrically and enforces the limit.

use std::mem;

use ser_raw::storage::{ContiguousStorage, Storage};

use crate::{
	harnesses, hooks, nd,
	state::{cfg::*, *},
};

/// Smallest power of 2 which is >= `n`, found without the function the code uses.
fn power_of_two_above(n: usize) -> usize {
	let x: usize = nd::any();
	nd::assume(x != 0 && x & (x - 1) == 0 && x >= n && (x == 1 || x >> 1 < n));
	x
}

fn reserve<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (pos, cap, ptr, calls) = (s.pos(), s.capacity(), s.as_ptr() as usize, hooks::calls());
	let n: usize = nd::any();
	nd::assume(n <= S::MAX_CAPACITY - pos);
	s.reserve(n);
	assert!(s.pos() == pos, "position moved");
	assert!(s.capacity() - s.pos() >= n, "not enough space reserved");
	if n <= cap - pos {
		assert!(s.capacity() == cap && s.as_ptr() as usize == ptr && hooks::calls() == calls, "storage changed though there was space");
		return;
	}
	assert!(s.capacity() <= S::MAX_CAPACITY, "limit exceeded");
	let need = pos + n;
	let power = power_of_two_above(need);
	if power >= S::MAX_CAPACITY {
		assert!(s.capacity() == S::MAX_CAPACITY, "does not grow to maximum");
	} else {
		assert!(s.capacity() == power.max(S::MAX_VALUE_ALIGNMENT), "does not grow to next power of 2");
	}
}

fn reserve_too_much<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let n: usize = nd::any();
	nd::assume(n > S::MAX_CAPACITY - s.pos());
	s.reserve(n);
}

fn create_too_much<S: ContiguousStorage>() {
	hooks::fake(S::STORAGE_ALIGNMENT);
	let n: usize = nd::any();
	nd::assume(n > S::MAX_CAPACITY);
	mem::forget(S::with_capacity(n));
}

fn create<S: ContiguousStorage>() {
	hooks::fake(S::STORAGE_ALIGNMENT);
	let n: usize = nd::any();
	nd::assume(n <= S::MAX_CAPACITY);
	let s = S::with_capacity(n);
	assert!(s.capacity() >= n && s.capacity() <= S::MAX_CAPACITY, "not enough capacity");
	assert!(s.pos() == 0, "not empty");
	assert!(n != 0 || hooks::calls() == 0, "allocates for nothing");
}

/// Reserving step by step: same as each on its own, never less than before.
fn twice<S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let (a, b, pos) = (nd::any::<usize>(), nd::any::<usize>(), s.pos());
	nd::assume(a <= S::MAX_CAPACITY - pos && b <= S::MAX_CAPACITY - pos);
	s.reserve(a);
	let cap = s.capacity();
	s.reserve(b);
	assert!(s.capacity() >= cap, "capacity reduced");
	assert!(s.capacity() - s.pos() >= a.max(b), "space reserved before is gone");
	assert!(b > a || s.capacity() == cap, "grows though there was space");
}

/// Pushing what fits neither grows nor panics, and pushing too much panics.
fn push_fits<T: 'static, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
	let mut s = Log::<SA, MVA, VA, MAX>::any();
	let (slice, cap) = (any_slice::<T>(), s.capacity);
	nd::assume(fits::<T, Log<SA, MVA, VA, MAX>>(s.pos, slice.len(), s.capacity));
	s.push_slice(slice);
	assert!(s.capacity == cap, "grows though there was space");
}

fn empty_too_much<T, S: ContiguousStorage>() {
	let mut s = any_state::<S>();
	let len: usize = nd::any();
	nd::assume(!fits::<T, S>(s.pos(), len, S::MAX_CAPACITY));
	s.push_empty_slice::<T>(len);
}

/// Real storage, full to its limit.
fn push_too_much<T: nd::Nd + Copy + Default, const N: usize>() {
	let mut s = E::with_capacity(48);
	let pos: usize = nd::any();
	nd::assume(pos <= 48 && pos % 8 == 0);
	unsafe { s.set_pos(pos) };
	let v: [T; N] = nd::any_array();
	nd::assume(!fits::<T, E>(pos, N, 48));
	s.push_slice(&v);
}

fn serializer_create<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
	use ser_raw::{storage::AlignedVec, *};
	let n: usize = nd::any();
	nd::assume(n <= MAX);
	hooks::fake(SA);
	{
		let s = CompleteSerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::with_capacity(n);
		assert!(s.capacity() >= n && s.capacity() <= MAX && s.pos() == 0, "capacity not as asked for");
	}
	{
		let s = PtrOffsetSerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::with_capacity(n);
		assert!(s.capacity() >= n && s.capacity() <= MAX && s.pos() == 0, "capacity not as asked for");
	}
	{
		let s = PureCopySerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::with_capacity(n);
		assert!(s.capacity() >= n && s.capacity() <= MAX && s.pos() == 0, "capacity not as asked for");
	}
}

harnesses! {
	sholds q_reserve_a [kani::unwind(10)] { reserve::<A>() }
	sholds q_reserve_b [kani::unwind(10)] { reserve::<B>() }
	sholds q_reserve_c [kani::unwind(10)] { reserve::<C>() }
	sholds q_reserve_d [kani::unwind(10)] { reserve::<D>() }
	sholds q_reserve_e [kani::unwind(10)] { reserve::<E>() }
	sholds q_reserve_f [kani::unwind(10)] { reserve::<F>() }
	sholds q_reserve_g [kani::unwind(10)] { reserve::<G>() }
	sholds q_reserve_h [kani::unwind(10)] { reserve::<H>() }
	sholds q_reserve_i [kani::unwind(10)] { reserve::<I>() }
	sholds q_twice_a [kani::unwind(10)] { twice::<A>() }
	sholds q_twice_e [kani::unwind(10)] { twice::<E>() }
	sholds q_twice_h [kani::unwind(10)] { twice::<H>() }
	sholds q_create_a [kani::unwind(10)] { create::<A>() }
	sholds q_create_e [kani::unwind(10)] { create::<E>() }
	sholds q_create_f [kani::unwind(10)] { create::<F>() }
	sholds q_create_g [kani::unwind(10)] { create::<G>() }
	holds q_push_fits_u8 [kani::unwind(10)] { push_fits::<u8, 16, 16, 8, { isize::MAX as usize - 15 }>() }
	holds q_push_fits_u64 [kani::unwind(10)] { push_fits::<u64, 16, 16, 1, { isize::MAX as usize - 15 }>() }
	holds q_push_fits_s6 [kani::unwind(10)] { push_fits::<S6, 16, 16, 8, 48>() }
	holds q_push_fits_a32 [kani::unwind(10)] { push_fits::<A32, 64, 32, 4, 192>() }
	sholds q_serializer_create_a [kani::unwind(10)] { serializer_create::<16, 16, 8, { isize::MAX as usize - 15 }>() }
	sholds q_serializer_create_e [kani::unwind(10)] { serializer_create::<16, 16, 8, 48>() }

	spanics p_reserve_a [kani::unwind(10)] { reserve_too_much::<A>() }
	spanics p_reserve_b [kani::unwind(10)] { reserve_too_much::<B>() }
	spanics p_reserve_d [kani::unwind(10)] { reserve_too_much::<D>() }
	spanics p_reserve_e [kani::unwind(10)] { reserve_too_much::<E>() }
	spanics p_reserve_f [kani::unwind(10)] { reserve_too_much::<F>() }
	spanics p_reserve_g [kani::unwind(10)] { reserve_too_much::<G>() }
	spanics p_reserve_h [kani::unwind(10)] { reserve_too_much::<H>() }
	spanics p_reserve_i [kani::unwind(10)] { reserve_too_much::<I>() }
	spanics p_create_a [kani::unwind(10)] { create_too_much::<A>() }
	spanics p_create_d [kani::unwind(10)] { create_too_much::<D>() }
	spanics p_create_e [kani::unwind(10)] { create_too_much::<E>() }
	spanics p_create_f [kani::unwind(10)] { create_too_much::<F>() }
	spanics p_create_g [kani::unwind(10)] { create_too_much::<G>() }
	spanics p_empty_e [kani::unwind(10)] { empty_too_much::<u32, E>() }
	spanics p_empty_g [kani::unwind(10)] { empty_too_much::<u64, G>() }
	panics p_push_u8 [kani::unwind(50)] { push_too_much::<u8, 49>() }
	panics p_push_u32 [kani::unwind(20)] { push_too_much::<u32, 9>() }
	panics p_push_u128 [kani::unwind(20)] { push_too_much::<u128, 2>() }
}
