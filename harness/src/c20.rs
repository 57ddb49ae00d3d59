//! C20: zero-sized values occupy nothing and stay legal.

use std::mem::{self, ManuallyDrop};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{harnesses, kit, kit::*, nd, state::*, tape, tape::Z};

macro_rules! zsts {
	($($t:ident $align:literal;)*) => {$(
		#[derive(Clone, Copy, Serialize)]
		#[repr(align($align))]
		pub struct $t;
		impl Same for $t {
			fn same(&self, _: *const Self, _: &mut Model) {}
		}
		impl tape::Expect for $t {
			fn expect(&self, _: &mut tape::Checker) {}
		}
	)*};
}
zsts! { Z1 1; Z2 2; Z4 4; Z8 8; Z16 16; Z32 32; Z64 64; }

/// Where nothing has been put, and whether a value could be read from there.
fn check<T, S: ContiguousStorage>(s: &S, at: usize, before: usize, capacity: usize) {
	let align = if mem::align_of::<T>() > S::VALUE_ALIGNMENT { mem::align_of::<T>() } else { S::VALUE_ALIGNMENT };
	let pos = s.pos();
	assert!(pos >= before && pos - before < align, "takes space");
	assert!(pos == before || pos % align == 0, "takes space which is not for alignment");
	assert!(s.capacity() == capacity, "capacity changes");
	assert!(at <= pos, "position is past the end of output");
	assert!((s.as_ptr() as usize + at) % mem::align_of::<T>() == 0, "position is not aligned");
	check_state(s);
}

/// Slices of zero-sized values, of any length, in any state.
fn slice<T: 'static, S: ContiguousStorage>() {
	let mut s: S = any_state();
	let (before, capacity) = (s.pos(), s.capacity());
	let at = s.push_slice(any_slice::<T>());
	check::<T, S>(&s, at, before, capacity);
	mem::forget(s);
}
fn one<T: 'static + Copy, S: ContiguousStorage>(value: T) {
	let mut s: S = any_state();
	let (before, capacity) = (s.pos(), s.capacity());
	let at = s.push(&value);
	check::<T, S>(&s, at, before, capacity);
	mem::forget(s);
}
fn empty<T: 'static, S: ContiguousStorage>() {
	let mut s: S = any_state();
	let (before, capacity) = (s.pos(), s.capacity());
	let at = s.push_empty_slice::<T>(nd::any());
	check::<T, S>(&s, at, before, capacity);
	mem::forget(s);
}
fn empty_one<T: 'static, S: ContiguousStorage>() {
	let mut s: S = any_state();
	let (before, capacity) = (s.pos(), s.capacity());
	let at = s.push_empty::<T>();
	check::<T, S>(&s, at, before, capacity);
	mem::forget(s);
}

/// Empty slices of what does have a size.
fn no_elements<T: 'static, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(_: fn(AlignedVec<SA, MVA, VA, MAX>)) {
	// What is written, to a stand-in
	let mut s = Log::<SA, MVA, VA, MAX>::any();
	let (before, capacity) = (s.pos, s.capacity);
	let nothing: [T; 0] = [];
	let at = s.push_slice(&nothing);
	let align = if mem::align_of::<T>() > VA { mem::align_of::<T>() } else { VA };
	assert!(s.pos >= before && s.pos - before < align, "takes space");
	assert!(s.capacity == capacity, "capacity changes");
	assert!(at <= s.pos && at % mem::align_of::<T>() == 0, "position is not aligned");
	assert!(s.pushed_size == 0, "something is pushed");
	// Space reserved for it
	let mut s: AlignedVec<SA, MVA, VA, MAX> = any_state();
	let (before, capacity) = (s.pos(), s.capacity());
	let at = s.push_empty_slice::<T>(0);
	check::<T, _>(&s, at, before, capacity);
	mem::forget(s);
}

/// Storage which has never allocated.
fn fresh<T: 'static + Copy, S: ContiguousStorage + ser_raw::storage::RandomAccessStorage>(value: T) {
	let mut s = S::new();
	let at = s.push(&value);
	check::<T, S>(&s, at, 0, 0);
	let _: T = unsafe { *s.read::<T>(at) };
	let at = s.push_slice(&[value, value]);
	check::<T, S>(&s, at, 0, 0);
	let _: T = unsafe { *s.read::<T>(at) };
	let nothing: [T; 0] = [];
	let at = s.push(&nothing);
	check::<[T; 0], S>(&s, at, 0, 0);
	let _: T = unsafe { *(s.as_ptr() as *const T) };
}

/// Whole values which have no size, and whole values of boxes and vectors of such.
fn value<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(_: fn(AlignedVec<SA, MVA, VA, MAX>), v: T)
where
	T: Same
		+ Serialize<PureCopySerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>
		+ Serialize<CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>>,
{
	let v = ManuallyDrop::new(v);
	// Space for alignment only is used up at most
	fn look<T: Same, S: ContiguousStorage>(v: &T, pos: usize, s: S, ptrs: Ptr) {
		let size = mem::size_of::<T>();
		let unit = if mem::align_of::<T>() > S::VALUE_ALIGNMENT { mem::align_of::<T>() } else { S::VALUE_ALIGNMENT };
		assert!(pos == 0, "position of value is wrong");
		assert!(s.pos() == (size + unit - 1) / unit * unit, "takes space");
		assert!(size != 0 || s.capacity() == 0, "allocates for nothing");
		check_state(&s);
		let mut m = Model::new(&s, 0, ptrs);
		m.pos = s.pos();
		let out = unsafe { s.as_ptr().add(pos) as *const T };
		assert!(out as usize % mem::align_of::<T>() == 0, "position is not aligned");
		v.same(out, &mut m);
		let _: &ManuallyDrop<T> = unsafe { &*(out as *const ManuallyDrop<T>) };
		assert!(m.pos == s.pos(), "something is pushed");
		mem::forget(s);
	}
	let (pos, s) = PureCopySerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::new().serialize(&*v);
	look(&*v, pos, s, Ptr::Verbatim);
	let (pos, s) = PtrOffsetSerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::new().serialize(&*v);
	look(&*v, pos, s, Ptr::Offset);
	let (pos, s) = CompleteSerializer::<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>::new().serialize(&*v);
	look(&*v, pos, s, Ptr::Addr);
}

/// Vector of any number of zero-sized values.
fn zst_vec<T>(len: usize) -> Vec<T> {
	assert!(mem::size_of::<T>() == 0);
	let mut v = Vec::new();
	unsafe { v.set_len(len) };
	v
}

use cfg::*;
type S16 = SDefault;

harnesses! {
	sholds q_a_1_slice [kani::unwind(3)] { slice::<Z1, A>() }
	sholds q_a_1_one [kani::unwind(3)] { one::<Z1, A>(Z1) }
	sholds q_a_1_empty [kani::unwind(3)] { empty::<Z1, A>() }
	sholds q_a_1_empty_one [kani::unwind(3)] { empty_one::<Z1, A>() }
	sholds q_a_8_slice [kani::unwind(3)] { slice::<Z8, A>() }
	sholds q_a_8_one [kani::unwind(3)] { one::<Z8, A>(Z8) }
	sholds q_a_8_empty [kani::unwind(3)] { empty::<Z8, A>() }
	sholds q_a_8_empty_one [kani::unwind(3)] { empty_one::<Z8, A>() }
	sholds q_a_16_slice [kani::unwind(3)] { slice::<Z16, A>() }
	sholds q_a_16_one [kani::unwind(3)] { one::<Z16, A>(Z16) }
	sholds q_a_16_empty [kani::unwind(3)] { empty::<Z16, A>() }
	sholds q_a_16_empty_one [kani::unwind(3)] { empty_one::<Z16, A>() }
	sholds q_b_1_slice [kani::unwind(3)] { slice::<Z1, B>() }
	sholds q_b_1_one [kani::unwind(3)] { one::<Z1, B>(Z1) }
	sholds q_b_1_empty [kani::unwind(3)] { empty::<Z1, B>() }
	sholds q_b_1_empty_one [kani::unwind(3)] { empty_one::<Z1, B>() }
	sholds q_b_2_slice [kani::unwind(3)] { slice::<Z2, B>() }
	sholds q_b_2_one [kani::unwind(3)] { one::<Z2, B>(Z2) }
	sholds q_b_2_empty [kani::unwind(3)] { empty::<Z2, B>() }
	sholds q_b_2_empty_one [kani::unwind(3)] { empty_one::<Z2, B>() }
	sholds q_b_16_slice [kani::unwind(3)] { slice::<Z16, B>() }
	sholds q_b_16_one [kani::unwind(3)] { one::<Z16, B>(Z16) }
	sholds q_b_16_empty [kani::unwind(3)] { empty::<Z16, B>() }
	sholds q_b_16_empty_one [kani::unwind(3)] { empty_one::<Z16, B>() }
	sholds q_c_1_slice [kani::unwind(3)] { slice::<Z1, C>() }
	sholds q_c_1_one [kani::unwind(3)] { one::<Z1, C>(Z1) }
	sholds q_c_1_empty [kani::unwind(3)] { empty::<Z1, C>() }
	sholds q_c_1_empty_one [kani::unwind(3)] { empty_one::<Z1, C>() }
	sholds q_c_16_slice [kani::unwind(3)] { slice::<Z16, C>() }
	sholds q_c_16_one [kani::unwind(3)] { one::<Z16, C>(Z16) }
	sholds q_c_16_empty [kani::unwind(3)] { empty::<Z16, C>() }
	sholds q_c_16_empty_one [kani::unwind(3)] { empty_one::<Z16, C>() }
	sholds q_d_4_slice [kani::unwind(3)] { slice::<Z4, D>() }
	sholds q_d_4_one [kani::unwind(3)] { one::<Z4, D>(Z4) }
	sholds q_d_4_empty [kani::unwind(3)] { empty::<Z4, D>() }
	sholds q_d_4_empty_one [kani::unwind(3)] { empty_one::<Z4, D>() }
	sholds q_d_32_slice [kani::unwind(3)] { slice::<Z32, D>() }
	sholds q_d_32_one [kani::unwind(3)] { one::<Z32, D>(Z32) }
	sholds q_d_32_empty [kani::unwind(3)] { empty::<Z32, D>() }
	sholds q_d_32_empty_one [kani::unwind(3)] { empty_one::<Z32, D>() }
	sholds q_e_1_slice [kani::unwind(3)] { slice::<Z1, E>() }
	sholds q_e_1_one [kani::unwind(3)] { one::<Z1, E>(Z1) }
	sholds q_e_1_empty [kani::unwind(3)] { empty::<Z1, E>() }
	sholds q_e_1_empty_one [kani::unwind(3)] { empty_one::<Z1, E>() }
	sholds q_e_16_slice [kani::unwind(3)] { slice::<Z16, E>() }
	sholds q_e_16_one [kani::unwind(3)] { one::<Z16, E>(Z16) }
	sholds q_e_16_empty [kani::unwind(3)] { empty::<Z16, E>() }
	sholds q_e_16_empty_one [kani::unwind(3)] { empty_one::<Z16, E>() }
	sholds q_f_1_slice [kani::unwind(3)] { slice::<Z1, F>() }
	sholds q_f_1_one [kani::unwind(3)] { one::<Z1, F>(Z1) }
	sholds q_f_1_empty [kani::unwind(3)] { empty::<Z1, F>() }
	sholds q_f_1_empty_one [kani::unwind(3)] { empty_one::<Z1, F>() }
	sholds q_g_32_slice [kani::unwind(3)] { slice::<Z32, G>() }
	sholds q_g_32_one [kani::unwind(3)] { one::<Z32, G>(Z32) }
	sholds q_g_32_empty [kani::unwind(3)] { empty::<Z32, G>() }
	sholds q_g_32_empty_one [kani::unwind(3)] { empty_one::<Z32, G>() }
	sholds q_g_64_slice [kani::unwind(3)] { slice::<Z64, G>() }
	sholds q_g_64_one [kani::unwind(3)] { one::<Z64, G>(Z64) }
	sholds q_g_64_empty [kani::unwind(3)] { empty::<Z64, G>() }
	sholds q_g_64_empty_one [kani::unwind(3)] { empty_one::<Z64, G>() }
	sholds q_h_8_slice [kani::unwind(3)] { slice::<Z8, H>() }
	sholds q_h_8_one [kani::unwind(3)] { one::<Z8, H>(Z8) }
	sholds q_h_8_empty [kani::unwind(3)] { empty::<Z8, H>() }
	sholds q_h_8_empty_one [kani::unwind(3)] { empty_one::<Z8, H>() }
	sholds q_i_64_slice [kani::unwind(3)] { slice::<Z64, I>() }
	sholds q_i_64_one [kani::unwind(3)] { one::<Z64, I>(Z64) }
	sholds q_i_64_empty [kani::unwind(3)] { empty::<Z64, I>() }
	sholds q_i_64_empty_one [kani::unwind(3)] { empty_one::<Z64, I>() }
	sholds q_a_array_slice [kani::unwind(3)] { slice::<[u128; 0], A>() }
	sholds q_a_array_one [kani::unwind(3)] { one::<[u128; 0], A>([]) }
	sholds q_a_array_empty [kani::unwind(3)] { empty::<[u128; 0], A>() }
	sholds q_a_array_empty_one [kani::unwind(3)] { empty_one::<[u128; 0], A>() }
	sholds q_b_array_slice [kani::unwind(3)] { slice::<[u32; 0], B>() }
	sholds q_b_array_one [kani::unwind(3)] { one::<[u32; 0], B>([]) }
	sholds q_b_array_empty [kani::unwind(3)] { empty::<[u32; 0], B>() }
	sholds q_b_array_empty_one [kani::unwind(3)] { empty_one::<[u32; 0], B>() }
	sholds q_d_tuple_slice [kani::unwind(3)] { slice::<((), Z16, [u8; 0]), D>() }
	sholds q_d_tuple_one [kani::unwind(3)] { one::<((), Z16, [u8; 0]), D>(((), Z16, [])) }
	sholds q_d_tuple_empty [kani::unwind(3)] { empty::<((), Z16, [u8; 0]), D>() }
	sholds q_d_tuple_empty_one [kani::unwind(3)] { empty_one::<((), Z16, [u8; 0]), D>() }

	sholds q_none_a_u8 [kani::unwind(3)] { no_elements::<u8, 16, 16, 8, { MAX_A }>(|_: A| {}) }
	sholds q_none_a_u128 [kani::unwind(3)] { no_elements::<u128, 16, 16, 8, { MAX_A }>(|_: A| {}) }
	sholds q_none_b_u64 [kani::unwind(3)] { no_elements::<u64, 16, 16, 1, { MAX_A }>(|_: B| {}) }
	sholds q_none_c_u16 [kani::unwind(3)] { no_elements::<u16, 16, 16, 16, { MAX_A }>(|_: C| {}) }
	sholds q_none_d_a32 [kani::unwind(3)] { no_elements::<A32, 64, 32, 4, { MAX_D }>(|_: D| {}) }
	sholds q_none_e_u128 [kani::unwind(3)] { no_elements::<u128, 16, 16, 8, 48>(|_: E| {}) }
	sholds q_none_h_u64 [kani::unwind(3)] { no_elements::<u64, 32, 8, 2, 264>(|_: H| {}) }

	holds q_fresh_a_1 [kani::unwind(4)] { fresh::<Z1, A>(Z1) }
	holds q_fresh_a_16 [kani::unwind(4)] { fresh::<Z16, A>(Z16) }
	holds q_fresh_b_2 [kani::unwind(4)] { fresh::<Z2, B>(Z2) }
	holds q_fresh_b_16 [kani::unwind(4)] { fresh::<Z16, B>(Z16) }
	holds q_fresh_c_8 [kani::unwind(4)] { fresh::<Z8, C>(Z8) }
	holds q_fresh_d_32 [kani::unwind(4)] { fresh::<Z32, D>(Z32) }
	holds q_fresh_e_16 [kani::unwind(4)] { fresh::<Z16, E>(Z16) }
	holds q_fresh_f_1 [kani::unwind(4)] { fresh::<Z1, F>(Z1) }
	holds q_fresh_g_64 [kani::unwind(4)] { fresh::<Z64, G>(Z64) }
	holds q_fresh_a_u64s [kani::unwind(4)] { fresh::<[u64; 0], A>([]) }
	holds q_fresh_f_bytes [kani::unwind(4)] { fresh::<[u8; 0], F>([]) }
	holds q_fresh_g_u64s [kani::unwind(4)] { fresh::<[u64; 0], G>([]) }
	holds q_fresh_h_8 [kani::unwind(4)] { fresh::<Z8, H>(Z8) }
	holds q_fresh_i_64 [kani::unwind(4)] { fresh::<Z64, I>(Z64) }

	holds q_value_unit [kani::unwind(6)] { value(|_: S16| {}, ()) }
	holds q_value_16 [kani::unwind(6)] { value(|_: SPacked| {}, Z16) }
	holds q_value_32 [kani::unwind(6)] { value(|_: SMixed| {}, Z32) }
	holds q_value_array [kani::unwind(6)] { value(|_: S16| {}, [0u64; 0]) }
	holds q_value_arrays [kani::unwind(6)] { value(|_: SPacked| {}, [Z8; 3]) }
	holds q_value_tuple [kani::unwind(6)] { value(|_: S16| {}, ((), Z16, [Z1; 2])) }
	holds q_value_some [kani::unwind(6)] { value(|_: SPacked| {}, Some(Z1)) }
	holds q_value_box [kani::unwind(6)] { value(|_: S16| {}, Box::new(Z1)) }
	holds q_value_box_16 [kani::unwind(6)] { value(|_: SPacked| {}, (Box::new(Z16), Box::new([0u32; 0]))) }
	holds q_value_box_array [kani::unwind(6)] { value(|_: S16| {}, Box::new([Z2; 4])) }
	holds q_value_vec_0 [kani::unwind(6)] { value(|_: S16| {}, zst_vec::<Z1>(0)) }
	holds q_value_vec_1 [kani::unwind(6)] { value(|_: S16| {}, zst_vec::<Z16>(1)) }
	holds q_value_vec_any [kani::unwind(6)] { value(|_: S16| {}, zst_vec::<Z1>(nd::any())) }
	holds q_value_vec_any_8 [kani::unwind(6)] { value(|_: SPacked| {}, (zst_vec::<Z8>(nd::any()), nd::any::<u8>())) }
	holds q_value_vec_any_array [kani::unwind(6)] { value(|_: SWide| {}, [zst_vec::<[u64; 0]>(nd::any()), zst_vec(nd::any())]) }
	holds q_value_vec_unit [kani::unwind(6)] { value(|_: SPacked| {}, Some(zst_vec::<()>(nd::any()))) }

	holds q_tape_vec [kani::unwind(50)] { tape::visits(zst_vec::<Z1>(nd::any())) }
	holds q_tape_vec_16 [kani::unwind(50)] { tape::visits(zst_vec::<Z16>(nd::any())) }
	holds q_tape_vec_visitable [kani::unwind(50)] { tape::visits(zst_vec::<Vec_>(nd::any())) }
	holds q_tape_box [kani::unwind(50)] { tape::visits((Box::new(Z1), Box::new(Z16), Box::new(()))) }
	holds q_tape_box_vec [kani::unwind(50)] { tape::visits(Box::new((zst_vec::<Z8>(nd::any()), Box::new(Z4)))) }
	holds q_tape_vec_box [kani::unwind(50)] { tape::visits(kit::vec_exact([Box::new(Z8), Box::new(Z8)])) }
	holds q_tape_vec_box_in [kani::unwind(50)] { tape::visits(kit::vec_exact([(Box::new(Z8), nd::any::<u8>())])) }
	holds q_tape_zsts [kani::unwind(50)] { tape::visits((Z1, [Z16; 2], ((), Z4), Some(Z32))) }
	holds q_tape_unit [kani::unwind(50)] { tape::visits(()) }
	holds q_tape_big [kani::unwind(50)] { tape::visits_two([zst_vec::<()>(usize::MAX), zst_vec(isize::MAX as usize), zst_vec(isize::MAX as usize + 1)]) }
}
const MAX_A: usize = ser_raw::util::aligned_max_capacity(16);
const MAX_D: usize = ser_raw::util::aligned_max_capacity(64);
type Vec_ = [Z; 0];
