//! C03: excess capacity is trimmed in complete output.

use std::mem::ManuallyDrop;

use ser_raw::{
	storage::{AlignedVec, Storage},
	CompleteSerializer, Serialize, Serializer,
};

use crate::{harnesses, kit::*, nd, shapes, shapes::*};

type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(_: AlignedVec<SA, MVA, VA, MAX>, v: T)
where T: Same + Serialize<Ser<SA, MVA, VA, MAX>> {
	let v = ManuallyDrop::new(v);
	let (pos, storage) = Ser::<SA, MVA, VA, MAX>::new().serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Addr);
}

/// `N` arbitrary elements, any legal capacity, something before and after.
fn around<T>(v: Vec<T>) -> (u64, Vec<T>, u64) {
	(nd::any(), v, nd::any())
}
fn ints<T: nd::Nd + Copy + Default, const N: usize>() -> (u64, Vec<T>, u64) {
	around(any_vec::<T, N>())
}
fn string<const N: usize>() -> (u64, String, u64) {
	(nd::any(), any_string::<N>(), nd::any())
}
/// Any capacity outside, any capacity inside.
fn nested() -> Vec<Vec<u16>> {
	vec_any_cap([any_vec::<u16, 1>(), any_vec::<u16, 0>()])
}
fn nested_empty() -> (Vec<Vec<u8>>, Vec<String>) {
	(vec_any_cap([]), vec_any_cap([]))
}
fn strings() -> Vec<String> {
	vec_any_cap([any_string::<0>(), any_string::<2>()])
}
fn inside_box() -> Box<(u8, Vec<u32>)> {
	Box::new((nd::any(), any_vec::<u32, 0>()))
}
fn inside_option() -> Option<Vec<u32>> {
	Some(any_vec::<u32, 0>())
}
fn tuples() -> Vec<(u8, u16)> {
	vec_any_cap([(nd::any(), nd::any()), (nd::any(), nd::any())])
}
fn boxes() -> Vec<Box<u8>> {
	vec_any_cap([any_box(), any_box()])
}
fn aligned<const N: usize>(v: [Aligned; N]) -> (u64, Vec<Aligned>, u64) {
	around(vec_any_cap(v))
}
fn zsts() -> (u64, Vec<()>, u64) {
	around(vec_exact([(), ()]))
}
fn no_zsts() -> (u64, Vec<()>, Vec<[u64; 0]>) {
	(nd::any(), Vec::new(), Vec::new())
}

harnesses! {
	holds q_u8_0 [kani::unwind(10)] { run(SDefault::new(), ints::<u8, 0>()) }
	holds q_u8_1 [kani::unwind(10)] { run(SPacked::new(), ints::<u8, 1>()) }
	holds q_u8_7 [kani::unwind(10)] { run(SDefault::new(), ints::<u8, 7>()) }
	holds q_u16_0 [kani::unwind(10)] { run(SPacked::new(), ints::<u16, 0>()) }
	holds q_u16_2 [kani::unwind(10)] { run(SDefault::new(), ints::<u16, 2>()) }
	holds q_u32_0 [kani::unwind(10)] { run(SWide::new(), ints::<u32, 0>()) }
	holds q_u32_3 [kani::unwind(10)] { run(SWide::new(), ints::<u32, 3>()) }
	holds q_u64_0 [kani::unwind(10)] { run(SMixed::new(), ints::<u64, 0>()) }
	holds q_u64_2 [kani::unwind(10)] { run(SMixed::new(), ints::<u64, 2>()) }
	holds q_u128_0 [kani::unwind(10)] { run(SDefault::new(), ints::<u128, 0>()) }
	holds q_u128_1 [kani::unwind(10)] { run(SDefault::new(), ints::<u128, 1>()) }
	holds q_i8_2 [kani::unwind(10)] { run(SDefault::new(), ints::<i8, 2>()) }
	holds q_aligned_0 [kani::unwind(10)] { run(SMixed::new(), aligned([])) }
	holds q_aligned_1 [kani::unwind(10)] { run(SMixed::new(), aligned([Aligned(nd::any(), any_box())])) }
	holds q_tuples [kani::unwind(10)] { run(SDefault::new(), tuples()) }
	holds q_boxes [kani::unwind(10)] { run(SDefault::new(), boxes()) }
	holds q_arrays [kani::unwind(20)] { run(SDefault::new(), vec_arr()) }
	holds q_string_0 [kani::unwind(10)] { run(SDefault::new(), string::<0>()) }
	holds q_string_1 [kani::unwind(10)] { run(SPacked::new(), string::<1>()) }
	holds q_string_8 [kani::unwind(10)] { run(SDefault::new(), string::<8>()) }
	holds q_string_new [kani::unwind(10)] { run(SDefault::new(), shapes::str_empty_new()) }
	holds q_vec_new [kani::unwind(10)] { run(SPacked::new(), shapes::vec_empty_new()) }
	holds q_nested [kani::unwind(10)] { run(SDefault::new(), nested()) }
	holds q_nested_empty [kani::unwind(10)] { run(SPacked::new(), nested_empty()) }
	holds q_strings [kani::unwind(10)] { run(SDefault::new(), strings()) }
	holds q_inside_box [kani::unwind(10)] { run(SDefault::new(), inside_box()) }
	holds q_inside_option [kani::unwind(10)] { run(SDefault::new(), inside_option()) }
	holds q_inside_struct [kani::unwind(10)] { run(SDefault::new(), named()) }
	holds q_inside_enum [kani::unwind(10)] { run(SDefault::new(), choice_fields()) }
	holds q_zsts [kani::unwind(10)] { run(SDefault::new(), zsts()) }
	holds q_no_zsts [kani::unwind(10)] { run(SDefault::new(), no_zsts()) }
	holds t_nested3 [kani::unwind(10)] { run(SDefault::new(), vec_any_cap([nested(), nested()])) }
	holds t_strings4 [kani::unwind(10)] { run(SDefault::new(), vec_any_cap([any_string::<0>(), any_string::<2>(), any_string::<3>(), any_string::<1>()])) }
	holds t_u64_8 [kani::unwind(12)] { run(SDefault::new(), ints::<u64, 8>()) }
}

/// From any state of storage on, with a user-defined serializer.
pub mod rec {
	use std::mem::ManuallyDrop;

	use ser_raw::{
		pos::{PosMapping, Ptrs},
		Serialize, Serializer,
	};

	use super::{around, boxes, ints, nested, nested_empty, string, strings};
	use crate::{harnesses, kit::*, rec::*};

	#[derive(Serializer)]
	#[ser_type(complete)]
	pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: Rec<SA, MVA, VA, MAX>,
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
		#[ser_ptrs]
		ptrs: Ptrs,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(storage: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + Serialize<Mine<SA, MVA, VA, MAX>> {
		let v = ManuallyDrop::new(v);
		let mut ser = Mine { storage, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
		let pos = ser.serialize_value(&*v);
		let s = ser.finalize();
		check_walk(&v, pos, &s, Ptr::Addr);
	}

	harnesses! {
		holds q_rec_u8_0 [kani::unwind(17)] { run(RecPacked::any(), ints::<u8, 0>()) }
		holds q_rec_u8_2 [kani::unwind(17)] { run(RecPacked::any(), ints::<u8, 2>()) }
		holds q_rec_u128_0 [kani::unwind(17)] { run(RecDefault::any(), ints::<u128, 0>()) }
		holds q_rec_u128_2 [kani::unwind(17)] { run(RecDefault::any(), ints::<u128, 2>()) }
		holds q_rec_string_0 [kani::unwind(17)] { run(RecDefault::any(), string::<0>()) }
		holds q_rec_string_3 [kani::unwind(17)] { run(RecDefault::any(), string::<3>()) }
		holds q_rec_nested [kani::unwind(17)] { run(RecDefault::any(), nested()) }
		holds q_rec_nested_empty [kani::unwind(17)] { run(RecPacked::any(), nested_empty()) }
		holds q_rec_strings [kani::unwind(17)] { run(RecDefault::any(), strings()) }
		holds q_rec_boxes [kani::unwind(17)] { run(RecPacked::any(), boxes()) }
		holds q_rec_far_text [kani::unwind(17)] { run(RecPacked::any_far(), far_text(70_001)) }
		holds q_rec_far_texts [kani::unwind(17)] { run(RecDefault::any_far(), far_texts(1 << 33)) }
		holds q_rec_far_vec [kani::unwind(263)] { run(RecDefault::any(), far_vec()) }
		holds t_rec_many [kani::unwind(17)] { run(RecDefault::any(), around(vec_any_cap([(any_vec::<u8, 1>(), any_string::<0>()), (any_vec::<u8, 0>(), any_string::<1>())]))) }
	}
}
