//! C22: output does not depend on capacity, history or construction of storage.
//!
//! All runs are compared with the one model of the output, which knows nothing of
//! capacity.

use std::mem::{self, ManuallyDrop};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	util::aligned_max_capacity,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	filled::{any_values, D3, H3},
	harnesses, hooks,
	kinds::*,
	kit::*,
	nd,
	shapes::*,
	state::{any_slice, any_state, cfg, fits, Log, A32, S24, S6},
};

const MAX: usize = aligned_max_capacity(16);
type Store<const VA: usize> = AlignedVec<16, 16, VA, MAX>;

/// Own constructors of the serializer.
pub trait Ctor: Kind {
	fn new<const VA: usize>() -> Owned<Self, 16, 16, VA, MAX>;
	fn with_capacity<const VA: usize>(cap: usize) -> Owned<Self, 16, 16, VA, MAX>;
}
macro_rules! ctor {
	($kind:ident $ser:ident) => {
		impl Ctor for $kind {
			fn new<const VA: usize>() -> Owned<Self, 16, 16, VA, MAX> {
				$ser::<16, 16, VA, MAX, Store<VA>>::new()
			}
			fn with_capacity<const VA: usize>(cap: usize) -> Owned<Self, 16, 16, VA, MAX> {
				$ser::<16, 16, VA, MAX, Store<VA>>::with_capacity(cap)
			}
		}
	};
}
ctor!(Complete CompleteSerializer);
ctor!(Offset PtrOffsetSerializer);
ctor!(Pure PureCopySerializer);

fn fresh<K: Ctor, const VA: usize, T>(make: fn() -> T)
where T: Same + Serialize<Owned<K, 16, 16, VA, MAX>> {
	let v = ManuallyDrop::new(make());
	let (pos, storage) = K::new::<VA>().serialize(&*v);
	check_same(&*v, pos, &storage, K::PTRS);
	mem::forget(storage);
}
fn sized<K: Ctor, const VA: usize, T>(make: fn() -> T, caps: &[usize])
where T: Same + Serialize<Owned<K, 16, 16, VA, MAX>> {
	let v = ManuallyDrop::new(make());
	for cap in caps {
		let (pos, storage) = K::with_capacity::<VA>(*cap).serialize(&*v);
		check_same(&*v, pos, &storage, K::PTRS);
		mem::forget(storage);
	}
}
/// Storage made outside: unchecked constructor, set position, shrunk, reserved.
fn given<K: Ctor, const VA: usize, T>(make: fn() -> T)
where T: Same + Serialize<Owned<K, 16, 16, VA, MAX>> {
	let v = ManuallyDrop::new(make());
	let mut a = unsafe { Store::<VA>::with_capacity_unchecked(48) };
	unsafe { a.set_pos(32) };
	a.shrink_to_fit();
	unsafe { a.set_pos(0) };
	let (pos, storage) = K::on(a).serialize(&*v);
	check_same(&*v, pos, &storage, K::PTRS);
	mem::forget(storage);

	let mut b = Store::<VA>::new();
	b.reserve(40);
	let (pos, storage) = K::on(b).serialize(&*v);
	check_same(&*v, pos, &storage, K::PTRS);
	mem::forget(storage);

	let mut c = Store::<VA>::with_capacity(96);
	c.shrink_to_fit();
	let (pos, storage) = K::on(c).serialize(&*v);
	check_same(&*v, pos, &storage, K::PTRS);
	mem::forget(storage);
}
/// Storage which has been used for something else, and cleared.
fn used<K: Ctor, const VA: usize, T>(make: fn() -> T, shrink: bool)
where T: Same + for<'s> Serialize<Borrowed<'s, K, 16, 16, VA, MAX>> {
	let v = ManuallyDrop::new(make());
	let mut storage = Store::<VA>::new();
	let junk = ManuallyDrop::new((nd::any::<u128>(), any_box::<u128>(), slack_vec::<u64, 3>()));
	storage.push(&junk.0);
	storage.push_slice(&[nd::any::<u16>(); 5]);
	storage.push(&*junk.1);
	storage.push_slice(&junk.2);
	storage.clear();
	if shrink {
		storage.shrink_to_fit();
	}
	let pos = K::on(&mut storage).serialize(&*v).0;
	check_same(&*v, pos, &storage, K::PTRS);
	mem::forget(storage);
}

/// Two storages which differ in capacity alone: same operation, same position.
/// By induction this holds for any number of them.
fn position<S: Storage + ContiguousStorage, A: Copy>(arg: A, room: usize, op: fn(&mut S, A) -> usize) {
	let mut a = ManuallyDrop::new(any_state::<S>());
	let pos = a.pos();
	nd::assume(room <= S::MAX_CAPACITY && pos <= S::MAX_CAPACITY - room);
	let one = (op(&mut *a, arg), a.pos());
	// The block of the first one is out of the way
	hooks::reset();
	let mut b = ManuallyDrop::new(any_state::<S>());
	nd::assume(b.pos() == pos);
	let two = (op(&mut *b, arg), b.pos());
	assert!(one == two, "position depends on capacity");
}
/// Real pushes to storages which hold the same amount but differ in capacity.
fn real<S: ContiguousStorage, T: Copy, const N: usize>(one: usize, two: usize) {
	let pos: usize = nd::any();
	nd::assume(pos <= one && pos % S::VALUE_ALIGNMENT == 0);
	let values = any_values::<T, N>();
	let run = |cap: usize| {
		let mut s = ManuallyDrop::new(S::with_capacity(cap));
		unsafe { s.set_pos(pos) };
		let a = s.push_slice(&values);
		let b = s.push(&values[0]);
		(a, b, s.pos())
	};
	assert!(run(one) == run(two), "position depends on capacity");
}
/// Pushes of anything to any storages which hold the same amount.
fn log<T: 'static, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>() {
	let mut a = Log::<SA, MVA, VA, MAX>::any();
	let mut b = Log::<SA, MVA, VA, MAX>::any();
	nd::assume(a.pos == b.pos);
	let slice = any_slice::<T>();
	nd::assume(fits::<T, Log<SA, MVA, VA, MAX>>(a.pos, slice.len(), MAX - 64));
	let one = (a.push_slice(slice), a.pos());
	let two = (b.push_slice(slice), b.pos());
	assert!(one == two, "position depends on capacity");
}
fn empty<S: Storage + ContiguousStorage, T>() {
	let len = nd::any_in(0, S::MAX_CAPACITY / 4 / mem::size_of::<T>());
	position::<S, _>(len, S::MAX_CAPACITY / 2, |s, len| s.push_empty_slice::<T>(len))
}
/// Reserving and shrinking do not show.
fn room<S: Storage + ContiguousStorage>() {
	let size = nd::any_in(0, S::MAX_CAPACITY / 4);
	position::<S, _>(size, S::MAX_CAPACITY / 2, |s, size| {
		s.reserve(size);
		s.pos()
	});
}
fn shrunk<S: Storage + ContiguousStorage>() {
	position::<S, _>((), 256, |s, _| {
		s.shrink_to_fit();
		s.push_empty::<u64>()
	});
}

fn pair() -> (u8, Box<u16>, u8) {
	(nd::any(), any_box(), nd::any())
}
fn a_vec() -> Vec<Box<u16>> {
	vec_with_cap([any_box(), any_box()], 4)
}
fn text() -> (String, u8, Vec<u32>) {
	(slack_string::<3>(), nd::any(), slack_vec::<u32, 0>())
}
fn deep() -> Box<(u8, Vec<(u16, Box<u8>)>)> {
	Box::new((nd::any(), vec_with_cap([(nd::any(), any_box()), (nd::any(), any_box())], 3)))
}

macro_rules! ways {
	($($kind:ident $va:literal $shape:ident $caps:expr, $fresh:ident $sized:ident $given:ident $used:ident $shrunk:ident;)*) => {
		harnesses! {
			$(
				holds $fresh [kani::unwind(10)] { fresh::<$kind, $va, _>($shape) }
				holds $sized [kani::unwind(10)] { sized::<$kind, $va, _>($shape, $caps) }
				holds $given [kani::unwind(10)] { given::<$kind, $va, _>($shape) }
				holds $used [kani::unwind(10)] { used::<$kind, $va, _>($shape, false) }
				holds $shrunk [kani::unwind(10)] { used::<$kind, $va, _>($shape, true) }
			)*

			holds q_real_a_u8 [kani::unwind(26)] { real::<cfg::A, u8, 3>(16, 48) }
			holds q_real_a_s24 [kani::unwind(26)] { real::<cfg::A, D3, 1>(32, 128) }
			holds q_real_b_u16 [kani::unwind(26)] { real::<cfg::B, u16, 3>(16, 17) }
			holds q_real_c_u64 [kani::unwind(26)] { real::<cfg::C, u64, 1>(16, 160) }
			holds q_real_d_s6 [kani::unwind(26)] { real::<cfg::D, H3, 2>(32, 96) }
			holds q_real_g_u128 [kani::unwind(26)] { real::<cfg::G, u128, 1>(128, 384) }
			holds q_real_h_u16 [kani::unwind(26)] { real::<cfg::H, u16, 3>(16, 264) }
			holds q_log_a_u8 [kani::unwind(12)] { log::<u8, 16, 16, 8, { aligned_max_capacity(16) }>() }
			holds q_log_a_s24 [kani::unwind(12)] { log::<S24, 16, 16, 8, { aligned_max_capacity(16) }>() }
			holds q_log_b_u32 [kani::unwind(12)] { log::<u32, 16, 16, 1, { aligned_max_capacity(16) }>() }
			holds q_log_d_s6 [kani::unwind(12)] { log::<S6, 64, 32, 4, { aligned_max_capacity(64) }>() }
			holds q_log_d_a32 [kani::unwind(12)] { log::<A32, 64, 32, 4, { aligned_max_capacity(64) }>() }
			holds q_log_h_u16 [kani::unwind(12)] { log::<u16, 32, 8, 2, 264>() }
			sholds q_empty_a_u8 [kani::unwind(12)] { empty::<cfg::A, u8>() }
			sholds q_empty_b_u32 [kani::unwind(12)] { empty::<cfg::B, u32>() }
			sholds q_empty_d_s6 [kani::unwind(12)] { empty::<cfg::D, S6>() }
			sholds q_empty_g_s24 [kani::unwind(12)] { empty::<cfg::G, S24>() }
			sholds q_empty_h_u16 [kani::unwind(12)] { empty::<cfg::H, u16>() }
			sholds q_room_a [kani::unwind(12)] { room::<cfg::A>() }
			sholds q_shrunk_a [kani::unwind(12)] { shrunk::<cfg::A>() }
			sholds q_room_b [kani::unwind(12)] { room::<cfg::B>() }
			sholds q_shrunk_b [kani::unwind(12)] { shrunk::<cfg::B>() }
			sholds q_room_d [kani::unwind(12)] { room::<cfg::D>() }
			sholds q_shrunk_d [kani::unwind(12)] { shrunk::<cfg::D>() }
			sholds q_room_g [kani::unwind(12)] { room::<cfg::G>() }
			sholds q_shrunk_g [kani::unwind(12)] { shrunk::<cfg::G>() }
			sholds q_room_h [kani::unwind(12)] { room::<cfg::H>() }
			sholds q_shrunk_h [kani::unwind(12)] { shrunk::<cfg::H>() }
		}
	};
}
ways! {
	Complete 8 pair &[16, 33, 256], q_complete_pair_fresh q_complete_pair_sized q_complete_pair_given q_complete_pair_used q_complete_pair_shrunk;
	Complete 1 a_vec &[24, 56], q_complete_vec_fresh q_complete_vec_sized q_complete_vec_given q_complete_vec_used q_complete_vec_shrunk;
	Complete 8 text &[8, 64], q_complete_text_fresh q_complete_text_sized q_complete_text_given q_complete_text_used q_complete_text_shrunk;
	Complete 8 deep &[1, 128], q_complete_deep_fresh q_complete_deep_sized q_complete_deep_given q_complete_deep_used q_complete_deep_shrunk;
	Offset 8 pair &[16, 33, 256], q_offset_pair_fresh q_offset_pair_sized q_offset_pair_given q_offset_pair_used q_offset_pair_shrunk;
	Offset 1 deep &[1, 24, 128], q_offset_deep_fresh q_offset_deep_sized q_offset_deep_given q_offset_deep_used q_offset_deep_shrunk;
	Pure 8 pair &[16, 33, 256], q_pure_pair_fresh q_pure_pair_sized q_pure_pair_given q_pure_pair_used q_pure_pair_shrunk;
	Pure 1 text &[8, 64, 80], q_pure_text_fresh q_pure_text_sized q_pure_text_given q_pure_text_used q_pure_text_shrunk;
}
