//! C10: several values in one output; borrowing and reusing storage.

use std::mem::{self, ManuallyDrop};

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, Storage},
	Serialize, Serializer,
};

use crate::{harnesses, kinds::*, kit::*, nd, shapes::*};

/// Check a value which was placed next.
pub fn check_next<T: Same>(v: &T, pos: usize, m: &mut Model) {
	let expect = m.place::<T>(1);
	assert!(pos == expect, "position of value is wrong");
	v.same(m.at(expect), m);
}

/// Three values, one output.
fn several<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T, U, V>(
	_: fn(K),
	storage: AlignedVec<SA, MVA, VA, MAX>,
	values: (T, U, V),
) where
	T: Same + Serialize<Owned<K, SA, MVA, VA, MAX>>,
	U: Same + Serialize<Owned<K, SA, MVA, VA, MAX>>,
	V: Same + Serialize<Owned<K, SA, MVA, VA, MAX>>,
{
	let values = ManuallyDrop::new(values);
	let mut ser = K::on(storage);
	let a = ser.serialize_value(&values.0);
	let b = ser.serialize_value(&values.1);
	let c = ser.serialize_value(&values.2);
	let storage = ManuallyDrop::new(ser.finalize());
	let mut m = Model::new(&*storage, 0, K::PTRS);
	check_next(&values.0, a, &mut m);
	check_next(&values.1, b, &mut m);
	check_next(&values.2, c, &mut m);
	assert!(storage.pos() == m.pos, "final position is wrong");
}

/// Same value thrice.
fn again<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(
	_: fn(K),
	storage: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
) where T: Same + Serialize<Owned<K, SA, MVA, VA, MAX>> {
	let v = ManuallyDrop::new(v);
	let mut ser = K::on(storage);
	let a = ser.serialize_value(&*v);
	let b = ser.serialize_value(&*v);
	let (c, storage) = ser.serialize(&*v);
	let storage = ManuallyDrop::new(storage);
	let mut m = Model::new(&*storage, 0, K::PTRS);
	check_next(&*v, a, &mut m);
	check_next(&*v, b, &mut m);
	check_next(&*v, c, &mut m);
	assert!(storage.pos() == m.pos, "final position is wrong");
}

/// Serializer over borrowed storage which already holds something.
fn append<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, P, T>(
	_: fn(K),
	mut storage: AlignedVec<SA, MVA, VA, MAX>,
	prefix: P,
	v: T,
) where
	P: Same,
	T: Same + for<'s> Serialize<Borrowed<'s, K, SA, MVA, VA, MAX>>,
{
	let v = ManuallyDrop::new(v);
	let at = storage.push(&prefix);
	let end = storage.pos();
	let (pos, back) = {
		let (pos, back) = K::on(&mut storage).serialize(&*v);
		(pos, back as *const AlignedVec<SA, MVA, VA, MAX>)
	};
	assert!(back == &storage as *const _, "something else than borrowed storage is returned");
	let mut m = Model::new(&storage, 0, K::PTRS);
	prefix.same(m.at(at), &mut m);
	m.pos = end;
	check_next(&*v, pos, &mut m);
	assert!(storage.pos() == m.pos, "final position is wrong");
	mem::forget(storage);
}

/// One serializer after another over the same storage, of any kinds. The last one
/// may not move the storage, which pointers of the first one depend on.
fn take_turns<K: Kind, L: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T, U>(
	_: fn(K, L),
	mut storage: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	w: U,
) where
	T: Same + for<'s> Serialize<Borrowed<'s, K, SA, MVA, VA, MAX>>,
	U: Same + for<'s> Serialize<Borrowed<'s, L, SA, MVA, VA, MAX>>,
{
	let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
	let a = K::on(&mut storage).serialize(&*v).0;
	let b = L::on(&mut storage).serialize(&*w).0;
	let mut m = Model::new(&storage, 0, K::PTRS);
	check_next(&*v, a, &mut m);
	m.ptrs = L::PTRS;
	check_next(&*w, b, &mut m);
	assert!(storage.pos() == m.pos, "final position is wrong");
	mem::forget(storage);
}

/// Use, clear, use again: as if new.
fn reuse<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T, U>(
	_: fn(K),
	mut storage: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	w: U,
) where
	T: for<'s> Serialize<Borrowed<'s, K, SA, MVA, VA, MAX>>,
	U: Same + for<'s> Serialize<Borrowed<'s, K, SA, MVA, VA, MAX>>,
{
	let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
	K::on(&mut storage).serialize(&*v);
	let cap = storage.capacity();
	let base = storage.as_ptr();
	storage.clear();
	assert!(storage.pos() == 0, "cleared storage is not empty");
	assert!(storage.capacity() == cap && storage.as_ptr() == base, "clearing changes capacity");
	let pos = K::on(&mut storage).serialize(&*w).0;
	check_same(&*w, pos, &storage, K::PTRS);
	mem::forget(storage);
}

/// As `reuse`, with the storage owned and taken out of the serializer.
fn reuse_owned<K: Kind, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T, U>(
	_: fn(K),
	storage: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	w: U,
) where
	T: Serialize<Owned<K, SA, MVA, VA, MAX>>,
	U: Same + Serialize<Owned<K, SA, MVA, VA, MAX>>,
{
	let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
	let (_, mut storage) = K::on(storage).serialize(&*v);
	let cap = storage.capacity();
	storage.clear();
	assert!(storage.pos() == 0, "cleared storage is not empty");
	assert!(storage.capacity() == cap, "clearing changes capacity");
	let (pos, storage) = K::on(storage).serialize(&*w);
	check_same(&*w, pos, &storage, K::PTRS);
	mem::forget(storage);
}

/// Clearing in any state.
fn clear<S: Storage + ContiguousStorage>() {
	let mut s = ManuallyDrop::new(crate::state::any_state::<S>());
	let (cap, base) = (s.capacity(), s.as_ptr());
	s.clear();
	assert!(s.pos() == 0, "cleared storage is not empty");
	assert!(s.capacity() == cap && s.as_ptr() == base, "clearing changes capacity");
}

fn pair() -> (u8, Box<u16>) {
	(nd::any(), any_box())
}
fn a_vec() -> Vec<Box<u16>> {
	vec_with_cap([any_box(), any_box()], 4)
}
fn text() -> (String, u8) {
	(slack_string::<3>(), nd::any())
}
fn no_ptrs() -> (u8, u32) {
	(nd::any(), nd::any())
}

use crate::state::cfg;

harnesses! {
	holds q_complete_several [kani::unwind(10)] { several(|_: Complete| {}, SDefault::new(), (pair(), a_vec(), text())) }
	holds q_complete_several_packed [kani::unwind(10)] { several(|_: Complete| {}, SPacked::new(), (text(), no_ptrs(), pair())) }
	holds q_complete_several_roomy [kani::unwind(10)] { several(|_: Complete| {}, SDefault::with_capacity(512), (a_vec(), pair(), a_vec())) }
	holds q_complete_again [kani::unwind(10)] { again(|_: Complete| {}, SDefault::new(), pair()) }
	holds q_complete_again_vec [kani::unwind(10)] { again(|_: Complete| {}, SMixed::with_capacity(256), a_vec()) }
	holds q_offset_several [kani::unwind(10)] { several(|_: Offset| {}, SDefault::new(), (pair(), a_vec(), text())) }
	holds q_offset_several_packed [kani::unwind(10)] { several(|_: Offset| {}, SPacked::new(), (text(), no_ptrs(), pair())) }
	holds q_offset_again [kani::unwind(10)] { again(|_: Offset| {}, SDefault::new(), pair()) }
	holds q_pure_several [kani::unwind(10)] { several(|_: Pure| {}, SDefault::new(), (pair(), a_vec(), text())) }
	holds q_pure_several_packed [kani::unwind(10)] { several(|_: Pure| {}, SPacked::new(), (text(), no_ptrs(), pair())) }
	holds q_pure_again [kani::unwind(10)] { again(|_: Pure| {}, SWide::new(), pair()) }

	holds q_complete_append [kani::unwind(10)] { append(|_: Complete| {}, SDefault::new(), nd::any::<u32>(), pair()) }
	holds q_complete_append_packed [kani::unwind(10)] { append(|_: Complete| {}, SPacked::new(), bytes3(), a_vec()) }
	holds q_complete_append_roomy [kani::unwind(10)] { append(|_: Complete| {}, SDefault::with_capacity(512), nd::any::<u128>(), text()) }
	holds q_offset_append [kani::unwind(10)] { append(|_: Offset| {}, SDefault::new(), nd::any::<u32>(), pair()) }
	holds q_offset_append_packed [kani::unwind(10)] { append(|_: Offset| {}, SPacked::new(), bytes3(), a_vec()) }
	holds q_pure_append [kani::unwind(10)] { append(|_: Pure| {}, SDefault::new(), nd::any::<u32>(), pair()) }
	holds q_pure_append_packed [kani::unwind(10)] { append(|_: Pure| {}, SPacked::new(), bytes3(), text()) }

	holds q_turns_complete [kani::unwind(10)] { take_turns(|_: Complete, _: Complete| {}, SDefault::with_capacity(512), pair(), a_vec()) }
	holds q_turns_complete_packed [kani::unwind(10)] { take_turns(|_: Complete, _: Complete| {}, SPacked::with_capacity(512), text(), pair()) }
	holds q_turns_complete_pure [kani::unwind(10)] { take_turns(|_: Complete, _: Pure| {}, SDefault::with_capacity(512), a_vec(), pair()) }
	holds q_turns_offset_complete [kani::unwind(10)] { take_turns(|_: Offset, _: Complete| {}, SDefault::new(), pair(), a_vec()) }
	holds q_turns_offset [kani::unwind(10)] { take_turns(|_: Offset, _: Offset| {}, SPacked::new(), text(), pair()) }
	holds q_turns_pure_offset [kani::unwind(10)] { take_turns(|_: Pure, _: Offset| {}, SDefault::new(), a_vec(), text()) }

	holds q_complete_reuse [kani::unwind(10)] { reuse(|_: Complete| {}, SDefault::new(), a_vec(), pair()) }
	holds q_complete_reuse_larger [kani::unwind(10)] { reuse(|_: Complete| {}, SDefault::new(), pair(), a_vec()) }
	holds q_complete_reuse_owned [kani::unwind(10)] { reuse_owned(|_: Complete| {}, SPacked::new(), text(), a_vec()) }
	holds q_offset_reuse [kani::unwind(10)] { reuse(|_: Offset| {}, SDefault::new(), a_vec(), pair()) }
	holds q_offset_reuse_owned [kani::unwind(10)] { reuse_owned(|_: Offset| {}, SPacked::new(), pair(), text()) }
	holds q_pure_reuse [kani::unwind(10)] { reuse(|_: Pure| {}, SDefault::new(), a_vec(), pair()) }
	holds q_pure_reuse_owned [kani::unwind(10)] { reuse_owned(|_: Pure| {}, SWide::new(), pair(), text()) }

	sholds q_clear_a [kani::unwind(2)] { clear::<cfg::A>() }
	sholds q_clear_b [kani::unwind(2)] { clear::<cfg::B>() }
	sholds q_clear_d [kani::unwind(2)] { clear::<cfg::D>() }
	sholds q_clear_e [kani::unwind(2)] { clear::<cfg::E>() }
	sholds q_clear_f [kani::unwind(2)] { clear::<cfg::F>() }
	sholds q_clear_g [kani::unwind(2)] { clear::<cfg::G>() }
}

/// Several values from any state of storage on, with a user-defined serializer.
pub mod rec {
	use std::mem::{self, ManuallyDrop};

	use ser_raw::{
		pos::{PosMapping, Ptrs},
		Serialize, Serializer,
	};

	use super::{a_vec, no_ptrs, pair, text};
	use crate::{harnesses, kit::*, nd, rec::*, shapes::*};

	macro_rules! sers {
		($($name:ident $kind:ident $ptrs:ident ($($field:ident $attr:ident $ty:ident $init:expr),*);)*) => {$(
			#[derive(Serializer)]
			#[ser_type($kind)]
			pub struct $name {
				#[ser_storage(RecPacked)]
				storage: RecPacked,
				$( #[$attr] $field: $ty, )*
			}
			impl Any for $name {
				const PTRS: Ptr = Ptr::$ptrs;
				fn any() -> Self {
					Self { storage: RecPacked::any(), $( $field: $init ),* }
				}
			}
		)*};
	}
	trait Any: Serializer<Storage = RecPacked, BorrowedStorage = RecPacked> {
		const PTRS: Ptr;
		fn any() -> Self;
	}
	sers! {
		Mine complete Addr (pos_mapping ser_pos_mapping PosMapping PosMapping::dummy(), ptrs ser_ptrs Ptrs Ptrs::new());
		MineOffset ptr_offset Offset (pos_mapping ser_pos_mapping PosMapping PosMapping::dummy());
		MinePure pure_copy Verbatim ();
	}

	fn run<S: Any, T: Walk + Serialize<S>, U: Walk + Serialize<S>>(v: T, w: U) {
		let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
		let mut ser = S::any();
		let a = ser.serialize_value(&*v);
		let b = ser.serialize_value(&*w);
		let s = ser.finalize();
		assert!(!s.odd, "something else than words is written");
		let mut walk = Walker::new(&s, S::PTRS);
		let at = walk.place::<T>(&*v, 1);
		assert!(a == at, "position of value is wrong");
		v.walk(at, &mut walk);
		let at = walk.place::<U>(&*w, 1);
		assert!(b == at, "position of value is wrong");
		w.walk(at, &mut walk);
		walk.done(s.pos);
		mem::forget(s);
	}

	harnesses! {
		holds q_rec_complete_pair_vec [kani::unwind(17)] { run::<Mine, _, _>(pair(), a_vec()) }
		holds q_rec_complete_vec_pair [kani::unwind(17)] { run::<Mine, _, _>(a_vec(), pair()) }
		holds q_rec_complete_text [kani::unwind(17)] { run::<Mine, _, _>(text(), box_u8()) }
		holds q_rec_complete_none [kani::unwind(17)] { run::<Mine, _, _>(no_ptrs(), pair()) }
		holds q_rec_offset_pair_vec [kani::unwind(17)] { run::<MineOffset, _, _>(pair(), a_vec()) }
		holds q_rec_offset_text [kani::unwind(17)] { run::<MineOffset, _, _>(text(), (nd::any::<u8>(), any_box::<u8>())) }
		holds q_rec_pure_pair_vec [kani::unwind(17)] { run::<MinePure, _, _>(pair(), a_vec()) }
		holds q_rec_pure_text [kani::unwind(17)] { run::<MinePure, _, _>(text(), box_u8()) }
	}
}
