//! C09: memory is allocated, resized and released as the allocator requires.
//!
//! The contract itself is checked by `hooks`.

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	harnesses, hooks, nd,
	shapes,
	state::{cfg::*, *},
};

/// The block held is the one storage reports.
fn check_held<S: ContiguousStorage>(s: &S) {
	let b = hooks::block();
	assert!(b.live == (s.capacity() > 0), "memory held though capacity is 0, or not held though it is not");
	assert!(!b.live || b.size == s.capacity(), "capacity is not size of block");
	assert!(!b.live || b.addr == s.as_ptr() as usize, "buffer is not the block");
}

fn check_released() {
	let b = hooks::block();
	assert!(!b.live, "memory leaked");
	assert!(b.deallocs == b.allocs, "memory not released exactly once");
}

fn create<S: ContiguousStorage>() {
	hooks::fake(S::STORAGE_ALIGNMENT);
	{
		let s = S::new();
		assert!(hooks::calls() == 0, "new storage allocates");
		check_held(&s);
	}
	assert!(hooks::calls() == 0, "storage which holds no memory releases some");
	{
		let cap: usize = nd::any();
		nd::assume(cap <= S::MAX_CAPACITY);
		let s = S::with_capacity(cap);
		check_held(&s);
		assert!(cap == 0 || s.capacity() > 0, "no capacity");
	}
	check_released();
}

/// Any operation `op`, with any argument.
fn operate<S: ContiguousStorage>(s: &mut S, op: u8) {
	let n: usize = nd::any();
	match op {
		0 => {
			nd::assume(n <= S::MAX_CAPACITY - s.pos());
			s.reserve(n)
		}
		1 => s.shrink_to_fit(),
		2 => s.clear(),
		_ => {
			nd::assume(fits::<u8, S>(s.pos(), n, S::MAX_CAPACITY));
			s.push_empty_slice::<u8>(n);
		}
	}
}

fn step<S: ContiguousStorage>(op: u8) {
	{
		let mut s = any_state::<S>();
		operate(&mut s, op);
		check_held(&s);
	}
	check_released();
}

/// Histories of 3 operations from fresh storage.
fn history<S: ContiguousStorage>(ops: [u8; 3]) {
	{
		hooks::fake(S::STORAGE_ALIGNMENT);
		let mut s = S::new();
		for op in ops {
			operate(&mut s, op);
			check_held(&s);
		}
	}
	check_released();
}

/// Histories of any 2 operations from any state.
fn history_any<S: ContiguousStorage>() {
	{
		let mut s = any_state::<S>();
		for _ in 0..2 {
			let op: u8 = nd::any();
			operate(&mut s, op);
			check_held(&s);
		}
	}
	check_released();
}

type Vec16<const MAX: usize> = AlignedVec<16, 16, 8, MAX>;
const LIMIT: usize = isize::MAX as usize - 15;

/// Serializers own their storage, or only borrow it.
fn ownership<Ser: Serializer<Storage = Vec16<LIMIT>, BorrowedStorage = Vec16<LIMIT>>>(make: fn(usize) -> Ser) {
	hooks::fake(16);
	let cap: usize = nd::any();
	nd::assume(cap <= LIMIT);
	{
		// Dropped while in use
		let ser = make(cap);
		check_held(ser.storage());
	}
	check_released();
	{
		// Taken out
		let s = make(cap).into_storage();
		check_held(&s);
	}
	check_released();
	{
		// Finished
		let s = make(cap).finalize();
		check_held(&s);
	}
	check_released();
}

fn borrowed() {
	{
		let mut s = any_state::<A>();
		{
			let _ser = CompleteSerializer::from_storage(&mut s);
		}
		check_held(&s);
		let _ = PtrOffsetSerializer::from_storage(&mut s).into_storage();
		check_held(&s);
		let _ = PureCopySerializer::from_storage(&mut s).finalize();
		check_held(&s);
		let _ = CompleteSerializer::from_storage(&mut s).finalize();
		check_held(&s);
	}
	check_released();
}

/// Real values, in memory which is resized in place or moves.
fn values<T>(v: T, cap: usize, schedule: Option<&'static [usize]>)
where T: for<'a> Serialize<CompleteSerializer<64, 32, 4, 512, &'a mut AlignedVec<64, 32, 4, 512>>> {
	let v = std::mem::ManuallyDrop::new(v);
	hooks::arena(64, schedule);
	{
		let mut s = AlignedVec::<64, 32, 4, 512>::with_capacity(cap);
		CompleteSerializer::from_storage(&mut s).serialize(&*v);
		check_held(&s);
		s.shrink_to_fit();
		check_held(&s);
	}
	check_released();
}

harnesses! {
	sholds q_create_a [kani::unwind(10)] { create::<A>() }
	sholds q_create_d [kani::unwind(10)] { create::<D>() }
	sholds q_create_e [kani::unwind(10)] { create::<E>() }
	sholds q_create_f [kani::unwind(10)] { create::<F>() }
	sholds q_create_g [kani::unwind(10)] { create::<G>() }
	sholds q_reserve_a [kani::unwind(10)] { step::<A>(0) }
	sholds q_reserve_b [kani::unwind(10)] { step::<B>(0) }
	sholds q_reserve_c [kani::unwind(10)] { step::<C>(0) }
	sholds q_reserve_d [kani::unwind(10)] { step::<D>(0) }
	sholds q_reserve_e [kani::unwind(10)] { step::<E>(0) }
	sholds q_reserve_f [kani::unwind(10)] { step::<F>(0) }
	sholds q_reserve_g [kani::unwind(10)] { step::<G>(0) }
	sholds q_reserve_h [kani::unwind(10)] { step::<H>(0) }
	sholds q_reserve_i [kani::unwind(10)] { step::<I>(0) }
	sholds q_shrink_a [kani::unwind(10)] { step::<A>(1) }
	sholds q_shrink_b [kani::unwind(10)] { step::<B>(1) }
	sholds q_shrink_c [kani::unwind(10)] { step::<C>(1) }
	sholds q_shrink_d [kani::unwind(10)] { step::<D>(1) }
	sholds q_shrink_e [kani::unwind(10)] { step::<E>(1) }
	sholds q_shrink_f [kani::unwind(10)] { step::<F>(1) }
	sholds q_shrink_g [kani::unwind(10)] { step::<G>(1) }
	sholds q_shrink_h [kani::unwind(10)] { step::<H>(1) }
	sholds q_clear_a [kani::unwind(10)] { step::<A>(2) }
	sholds q_clear_g [kani::unwind(10)] { step::<G>(2) }
	sholds q_empty_a [kani::unwind(10)] { step::<A>(3) }
	sholds q_empty_d [kani::unwind(10)] { step::<D>(3) }
	sholds q_empty_e [kani::unwind(10)] { step::<E>(3) }
	sholds q_empty_f [kani::unwind(10)] { step::<F>(3) }
	sholds q_history_grow_a [kani::unwind(10)] { history::<A>([0, 3, 0]) }
	sholds q_history_shrink_a [kani::unwind(10)] { history::<A>([0, 1, 0]) }
	sholds q_history_reuse_a [kani::unwind(10)] { history::<A>([3, 2, 1]) }
	sholds q_history_grow_e [kani::unwind(10)] { history::<E>([3, 0, 1]) }
	sholds q_history_twice_d [kani::unwind(10)] { history::<D>([3, 1, 3]) }
	sholds q_history_any_b [kani::unwind(10)] { history_any::<B>() }
	sholds q_history_any_e [kani::unwind(10)] { history_any::<E>() }
	sholds q_history_any_h [kani::unwind(10)] { history_any::<H>() }
	sholds q_own_complete [kani::unwind(10)] { ownership(CompleteSerializer::<16, 16, 8, LIMIT, Vec16<LIMIT>>::with_capacity) }
	sholds q_own_ptr_offset [kani::unwind(10)] { ownership(PtrOffsetSerializer::<16, 16, 8, LIMIT, Vec16<LIMIT>>::with_capacity) }
	sholds q_own_pure_copy [kani::unwind(10)] { ownership(PureCopySerializer::<16, 16, 8, LIMIT, Vec16<LIMIT>>::with_capacity) }
	sholds q_borrowed [kani::unwind(10)] { borrowed() }
	sholds q_values_box [kani::unwind(10)] { values(shapes::box_u8(), 0, None) }
	sholds q_values_vec [kani::unwind(10)] { values(shapes::vec_u16(), 8, None) }
	sholds q_values_box3_stay [kani::unwind(10)] { values(shapes::box3(), 0, Some(&[0])) }
	sholds q_values_box3_move [kani::unwind(10)] { values(shapes::box3(), 0, Some(&[0, 1, 2])) }
	sholds q_values_list_back [kani::unwind(10)] { values(shapes::list2(), 8, Some(&[0, 1])) }
	sholds q_values_outer_mixed [kani::unwind(10)] { values(shapes::outer(), 8, Some(&[0, 1, 1, 2])) }

	sholds t_history_any_a [kani::unwind(10)] { history_any::<A>() }
	sholds t_history_any_d [kani::unwind(10)] { history_any::<D>() }
	sholds t_history_any_g [kani::unwind(10)] { history_any::<G>() }
	sholds t_history_any_i [kani::unwind(10)] { history_any::<I>() }
}
