//! C13: big integers serialize like the vector of digits they wrap.

use std::mem::{self, ManuallyDrop};

use num_bigint::{BigInt, BigUint, Sign};
use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::{AlignedVec, ContiguousStorage, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{harnesses, kit::*, nd, rec::*, tape};

/// Number of N digits, the last of which is not 0, with any capacity.
fn uint<const N: usize>() -> BigUint {
	number(vec_any_cap(digits::<N>()))
}
fn exact<const N: usize>() -> BigUint {
	number(vec_exact(digits::<N>()))
}
fn slack<const N: usize>() -> BigUint {
	number(vec_with_cap(digits::<N>(), N + 3))
}
fn digits<const N: usize>() -> [u64; N] {
	let d: [u64; N] = nd::any_array();
	nd::assume(N == 0 || d[N - 1] != 0);
	d
}
fn number(digits: Vec<u64>) -> BigUint {
	// So are its own conversions, but they may shrink
	assert!(mem::size_of::<BigUint>() == mem::size_of::<Vec<u64>>());
	unsafe { mem::transmute(digits) }
}
fn int(sign: Sign, magnitude: BigUint) -> BigInt {
	BigInt::from_biguint(sign, magnitude)
}

type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	PureCopySerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;
type SerO<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;
type SerC<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

/// All built-in serializers.
fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(_: AlignedVec<SA, MVA, VA, MAX>, v: T, cap: usize)
where T: Same + PartialOrd + Serialize<Ser<SA, MVA, VA, MAX>> + Serialize<SerO<SA, MVA, VA, MAX>> + Serialize<SerC<SA, MVA, VA, MAX>> {
	let v = ManuallyDrop::new(v);
	let (pos, storage) = Ser::<SA, MVA, VA, MAX>::with_capacity(cap).serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Verbatim);
	let (pos, storage) = SerO::<SA, MVA, VA, MAX>::with_capacity(cap).serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Offset);
	let (pos, storage) = SerC::<SA, MVA, VA, MAX>::with_capacity(cap).serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Addr);
	// In its own terms
	let out = unsafe { &*(storage.as_ptr().add(pos) as *const ManuallyDrop<T>) };
	assert!((**out).partial_cmp(&*v) == Some(std::cmp::Ordering::Equal), "number differs from input");
	mem::forget(storage);
}

#[derive(Serializer)]
#[ser_type(complete)]
struct Complete_ {
	#[ser_storage(RecPacked)]
	storage: RecPacked,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
struct Offset_ {
	#[ser_storage(RecPacked)]
	storage: RecPacked,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}
#[derive(Serializer)]
#[ser_type(pure_copy)]
struct Pure_ {
	#[ser_storage(RecPacked)]
	storage: RecPacked,
}

/// From any state of storage on. Exactly what is written, and where.
fn rec<T>(v: T)
where T: Walk + Serialize<Complete_> + Serialize<Offset_> + Serialize<Pure_> {
	let v = ManuallyDrop::new(v);
	let mut ser = Offset_ { storage: RecPacked::any(), pos_mapping: PosMapping::dummy() };
	let pos = ser.serialize_value(&*v);
	let s = ser.finalize();
	check_walk(&v, pos, &s, Ptr::Offset);
	mem::forget(s);
	let mut ser = Pure_ { storage: RecPacked::any() };
	let pos = ser.serialize_value(&*v);
	let s = ser.finalize();
	check_walk(&v, pos, &s, Ptr::Verbatim);
	mem::forget(s);
}

/// Same blocks in same order as the vector itself.
fn like_vec<const N: usize>(sign: Option<Sign>) {
	fn events<S: Serializer, T: Serialize<S>>(mut s: S, v: &T, data: *const u64, len: usize) {
		tape::start();
		s.serialize_value(v);
		let mut c = tape::checker();
		c.push(v as *const T, 1);
		if len != 0 {
			c.push(data, len);
		}
		c.done();
		mem::forget(s);
	}
	let digits = ManuallyDrop::new(vec_any_cap(digits::<N>()));
	let (data, len) = (digits.as_ptr(), digits.len());
	let n = number(unsafe { std::ptr::read(&*digits) });
	match sign {
		None => {
			let n = ManuallyDrop::new(n);
			events(tape::PureTape::new(), &*n, data, len);
			events(tape::TrackTape::new(), &*n, data, len);
			events(tape::OffsetTape::new(), &*n, data, len);
			events(tape::FullTape::new(), &*n, data, len);
		}
		Some(sign) => {
			let n = ManuallyDrop::new(int(sign, n));
			events(tape::PureTape::new(), &*n, data, len);
			events(tape::TrackTape::new(), &*n, data, len);
			events(tape::OffsetTape::new(), &*n, data, len);
			events(tape::FullTape::new(), &*n, data, len);
		}
	}
}

/// Symbolic number of digits as well.
fn any_len<const N: usize>() {
	let (p, c, l) = vec_words::<u64>();
	let len = nd::any_in(0, N);
	let d: [u64; N] = nd::any_array();
	nd::assume(len == 0 || d[len - 1] != 0);
	let mut words = [0usize; 3];
	words[p] = Box::leak(Box::new(d)) as *mut _ as usize;
	words[c] = nd::any_in(len, isize::MAX as usize / 8);
	words[l] = len;
	let n: ManuallyDrop<BigUint> = unsafe { mem::transmute(words) };
	let mut s = tape::FullTape::new();
	tape::start();
	s.serialize_value::<BigUint>(&n);
	let mut check = tape::checker();
	check.push::<BigUint>(&*n, 1);
	if len != 0 {
		check.push(words[p] as *const u64, len);
	}
	check.done();
	mem::forget(s);
}

use Sign::{Minus, NoSign, Plus};
harnesses! {
	holds q_uint_0 [kani::unwind(10)] { run(SDefault::new(), exact::<0>(), 0) }
	holds q_uint_0_cap [kani::unwind(10)] { run(SDefault::new(), uint::<0>(), 64) }
	holds q_uint_1 [kani::unwind(10)] { run(SDefault::new(), uint::<1>(), 0) }
	holds q_uint_2 [kani::unwind(10)] { run(SPacked::new(), slack::<2>(), 0) }
	holds q_uint_3 [kani::unwind(10)] { run(SWide::new(), exact::<3>(), 256) }
	holds q_uint_8 [kani::unwind(12)] { run(SDefault::new(), slack::<8>(), 0) }
	holds q_int_0 [kani::unwind(10)] { run(SDefault::new(), int(NoSign, exact::<0>()), 0) }
	holds q_int_0_cap [kani::unwind(10)] { run(SPacked::new(), int(Plus, uint::<0>()), 64) }
	holds q_int_plus_1 [kani::unwind(10)] { run(SDefault::new(), int(Plus, uint::<1>()), 0) }
	holds q_int_minus_1 [kani::unwind(10)] { run(SPacked::new(), int(Minus, uint::<1>()), 0) }
	holds q_int_plus_2 [kani::unwind(10)] { run(SMixed::new(), int(Plus, exact::<2>()), 0) }
	holds q_int_minus_2 [kani::unwind(10)] { run(SDefault::new(), int(Minus, slack::<2>()), 512) }
	holds q_int_minus_5 [kani::unwind(10)] { run(SDefault::new(), int(Minus, slack::<5>()), 0) }
	holds q_tuple [kani::unwind(10)] { run(SPacked::new(), (nd::any::<u8>(), int(Minus, slack::<1>()), slack::<2>()), 0) }
	holds q_box [kani::unwind(10)] { run(SDefault::new(), Box::new(int(Plus, slack::<2>())), 0) }
	holds q_vec [kani::unwind(4)] { run(SDefault::new(), vec_with_cap([slack::<1>(), slack::<2>()], 4), 0) }
	holds q_array [kani::unwind(10)] { run(SDefault::new(), [slack::<2>(), exact::<0>(), exact::<1>()], 0) }
	holds q_option [kani::unwind(10)] { run(SDefault::new(), Some(int(Minus, uint::<2>())), 0) }

	holds q_rec_uint_0 [kani::unwind(17)] { rec(uint::<0>()) }
	holds q_rec_uint_1 [kani::unwind(17)] { rec(uint::<1>()) }
	holds q_rec_uint_8 [kani::unwind(17)] { rec(uint::<8>()) }
	holds q_rec_int_0 [kani::unwind(17)] { rec(int(Plus, uint::<0>())) }
	holds q_rec_int_plus [kani::unwind(17)] { rec(int(Plus, uint::<2>())) }
	holds q_rec_int_minus [kani::unwind(17)] { rec(int(Minus, uint::<3>())) }
	holds q_rec_box [kani::unwind(17)] { rec((nd::any::<u8>(), Box::new(int(Minus, uint::<2>())))) }
	holds q_rec_array [kani::unwind(17)] { rec([int(Plus, uint::<1>()), int(NoSign, exact::<0>()), int(Minus, uint::<2>())]) }

	holds q_like_uint_0 [kani::unwind(10)] { like_vec::<0>(None) }
	holds q_like_uint_1 [kani::unwind(10)] { like_vec::<1>(None) }
	holds q_like_uint_7 [kani::unwind(10)] { like_vec::<7>(None) }
	holds q_like_int_0 [kani::unwind(10)] { like_vec::<0>(Some(Minus)) }
	holds q_like_int_0_plus [kani::unwind(10)] { like_vec::<0>(Some(Plus)) }
	holds q_like_int_1_plus [kani::unwind(10)] { like_vec::<1>(Some(Plus)) }
	holds q_like_int_1_minus [kani::unwind(10)] { like_vec::<1>(Some(Minus)) }
	holds q_like_int_7_minus [kani::unwind(10)] { like_vec::<7>(Some(Minus)) }
	holds q_like_uint_any [kani::unwind(20)] { any_len::<16>() }
}
