//! C18: derived serializers behave like the built-in ones.

use std::mem::ManuallyDrop;

use ser_raw::{
	pos::{PosMapping, Ptrs},
	Serialize, Serializer,
};

use crate::{kit::*, rec::*, shapes::*};

#[derive(Serializer)]
#[ser_type(complete)]
pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_storage(Rec<SA, MVA, VA, MAX>)]
	storage: Rec<SA, MVA, VA, MAX>,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}

fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(storage: Rec<SA, MVA, VA, MAX>, v: T)
where T: Walk + Serialize<Mine<SA, MVA, VA, MAX>> {
	let v = ManuallyDrop::new(v);
	let mut ser = Mine { storage, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	let pos = ser.serialize_value(&*v);
	let s = ser.finalize();
	check_walk(&v, pos, &s, Ptr::Addr);
}

rec_harnesses!(run);

/// Other kinds, other orders of fields, other fields between them; storage borrowed.
pub mod offset {
	use std::mem::ManuallyDrop;

	use ser_raw::{pos::PosMapping, Serialize, Serializer};

	use crate::{kit::*, rec::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(ptr_offset)]
	pub struct Mine<'a, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		pub counter: u32,
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
		pub other_mapping: PosMapping,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: &'a mut Rec<SA, MVA, VA, MAX>,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(mut s: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + for<'a> Serialize<Mine<'a, SA, MVA, VA, MAX>> {
		let v = ManuallyDrop::new(v);
		let ser = Mine { storage: &mut s, pos_mapping: PosMapping::dummy(), other_mapping: PosMapping::new(1, 2), counter: 0 };
		let (pos, _) = ser.serialize(&*v);
		check_walk(&v, pos, &s, Ptr::Offset);
	}

	rec_few_harnesses!(run);
}

pub mod copy {
	use std::{borrow::BorrowMut, mem::ManuallyDrop};

	use ser_raw::{Serialize, Serializer};

	use crate::{kit::*, rec::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(pure_copy)]
	pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>
	where B: BorrowMut<Rec<SA, MVA, VA, MAX>>
	{
		pub before: u8,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: B,
		pub after: u8,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(s: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + Serialize<Mine<SA, MVA, VA, MAX, Rec<SA, MVA, VA, MAX>>> {
		let v = ManuallyDrop::new(v);
		let ser = Mine { storage: s, before: 1, after: 2 };
		let (pos, s) = ser.serialize(&*v);
		check_walk(&v, pos, &s, Ptr::Verbatim);
	}

	rec_few_harnesses!(run);
}

pub mod track {
	use std::mem::ManuallyDrop;

	use ser_raw::{pos::PosMapping, Serialize, Serializer};

	use crate::{kit::*, rec::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(pos_tracking)]
	pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
		pub between: PosMapping,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: Rec<SA, MVA, VA, MAX>,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(s: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + Serialize<Mine<SA, MVA, VA, MAX>> {
		let v = ManuallyDrop::new(v);
		let ser = Mine { storage: s, pos_mapping: PosMapping::dummy(), between: PosMapping::dummy() };
		let (pos, s) = ser.serialize(&*v);
		check_walk(&v, pos, &s, Ptr::Verbatim);
	}

	rec_few_harnesses!(run);
}

/// Derived and built-in ones over the same kind of storage: outputs are compared.
pub mod real {
	use std::mem::{self, ManuallyDrop};

	use ser_raw::{
		pos::{PosMapping, Ptrs},
		storage::{AlignedVec, ContiguousStorage, Storage},
		CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
	};

	use crate::{kit::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(complete)]
	pub struct MyComplete {
		pub unrelated: [u8; 3],
		#[ser_storage(SPacked)]
		storage: SPacked,
		#[ser_ptrs]
		ptrs: Ptrs,
		pub other: Ptrs,
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
	}
	#[derive(Serializer)]
	#[ser_type(ptr_offset)]
	pub struct MyOffset {
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
		#[ser_storage(SPacked)]
		storage: SPacked,
	}
	#[derive(Serializer)]
	#[ser_type(pure_copy)]
	pub struct MyCopy {
		pub spare: SPacked,
		#[ser_storage(SPacked)]
		storage: SPacked,
	}
	#[derive(Serializer)]
	#[ser_type(pos_tracking)]
	pub struct MyTrack {
		#[ser_storage(SPacked)]
		storage: SPacked,
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
	}

	const MAX: usize = <SPacked as Storage>::MAX_CAPACITY;
	type A = AlignedVec<16, 16, 1, MAX>;

	fn words_equal(a: &SPacked, b: &SPacked, ptr: bool) {
		assert!(a.pos() == b.pos(), "derived serializer yields other length of output");
		let mut i = 0;
		while i < a.pos() / 8 {
			let (x, y) = unsafe { ((a.as_ptr() as *const usize).add(i).read(), (b.as_ptr() as *const usize).add(i).read()) };
			if ptr {
				// Pointers differ as buffers do
				let (dx, dy) = (x.wrapping_sub(a.as_ptr() as usize), y.wrapping_sub(b.as_ptr() as usize));
				assert!(x == y || dx == dy, "derived serializer yields other output");
			} else {
				assert!(x == y, "derived serializer yields other output");
			}
			i += 1;
		}
	}

	fn complete<T: Same + Serialize<MyComplete> + Serialize<CompleteSerializer<16, 16, 1, MAX, A>>>(v: T) {
		let v = ManuallyDrop::new(v);
		let mine = MyComplete {
			unrelated: [0; 3],
			storage: A::new(),
			ptrs: Ptrs::new(),
			other: Ptrs::new(),
			pos_mapping: PosMapping::dummy(),
		};
		let (p, a) = mine.serialize(&*v);
		check_same(&*v, p, &a, Ptr::Addr);
		let (q, b) = CompleteSerializer::<16, 16, 1, MAX, A>::new().serialize(&*v);
		assert!(p == q, "derived serializer yields other position");
		words_equal(&a, &b, true);
		mem::forget((a, b));
	}
	fn offset<T: Same + Serialize<MyOffset> + Serialize<PtrOffsetSerializer<16, 16, 1, MAX, A>>>(v: T) {
		let v = ManuallyDrop::new(v);
		let (p, a) = MyOffset { storage: A::new(), pos_mapping: PosMapping::dummy() }.serialize(&*v);
		check_same(&*v, p, &a, Ptr::Offset);
		let (q, b) = PtrOffsetSerializer::<16, 16, 1, MAX, A>::new().serialize(&*v);
		assert!(p == q, "derived serializer yields other position");
		words_equal(&a, &b, false);
		mem::forget((a, b));
	}
	fn copy<T: Same + Serialize<MyCopy> + Serialize<MyTrack> + Serialize<PureCopySerializer<16, 16, 1, MAX, A>>>(v: T) {
		let v = ManuallyDrop::new(v);
		let (p, a) = MyCopy { storage: A::new(), spare: A::new() }.serialize(&*v);
		check_same(&*v, p, &a, Ptr::Verbatim);
		let (q, b) = PureCopySerializer::<16, 16, 1, MAX, A>::new().serialize(&*v);
		let (r, c) = MyTrack { storage: A::new(), pos_mapping: PosMapping::dummy() }.serialize(&*v);
		assert!(p == q && p == r, "derived serializer yields other position");
		words_equal(&a, &b, false);
		words_equal(&a, &c, false);
		mem::forget((a, b, c));
	}

	// No padding inside of these, so that outputs can be compared word by word
	fn words() -> (u64, Vec<u64>, Box<u64>) {
		(crate::nd::any(), slack_vec::<u64, 2>(), any_box())
	}
	fn nested() -> Vec<Vec<u64>> {
		vec_with_cap([slack_vec::<u64, 1>(), slack_vec::<u64, 2>(), vec_with_cap([], 4)], 4)
	}
	fn boxes() -> [Box<Box<u64>>; 2] {
		[Box::new(any_box()), Box::new(any_box())]
	}

	crate::harnesses! {
		holds q_complete_words [kani::unwind(17)] { complete(words()) }
		holds q_complete_nested [kani::unwind(20)] { complete(nested()) }
		holds q_complete_boxes [kani::unwind(17)] { complete(boxes()) }
		holds q_offset_words [kani::unwind(17)] { offset(words()) }
		holds q_offset_nested [kani::unwind(20)] { offset(nested()) }
		holds q_offset_boxes [kani::unwind(17)] { offset(boxes()) }
		holds q_copy_words [kani::unwind(17)] { copy(words()) }
		holds q_copy_nested [kani::unwind(20)] { copy(nested()) }
		holds q_copy_boxes [kani::unwind(17)] { copy(boxes()) }
	}
}

/// Positions asked for while serializing, and overwriting, with derived ones.
pub mod asks {
	use std::{
		borrow::BorrowMut,
		mem::{self, ManuallyDrop},
	};

	use ser_raw::{
		pos::{Addr, PosMapping, Ptrs},
		storage::{ContiguousStorage, Storage},
		Serialize, Serializer,
	};

	use crate::{kit::*, nd, probe::*, rec::*};

	#[derive(Serializer)]
	#[ser_type(pos_tracking)]
	pub struct Track<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T: BorrowMut<Rec<SA, MVA, VA, MAX>>> {
		pub unrelated: PosMapping,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		out: T,
		pub count: usize,
		#[ser_pos_mapping]
		at: PosMapping,
	}
	#[derive(Serializer)]
	#[ser_type(ptr_offset)]
	pub struct Offset<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_pos_mapping]
		at: PosMapping,
		pub unrelated: PosMapping,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		out: Rec<SA, MVA, VA, MAX>,
	}
	#[derive(Serializer)]
	#[ser_type(complete)]
	pub struct Complete<'a, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_ptrs]
		written: Ptrs,
		#[ser_pos_mapping]
		at: PosMapping,
		pub unrelated: PosMapping,
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		out: &'a mut Rec<SA, MVA, VA, MAX>,
		pub more: Ptrs,
	}

	fn track<T>(v: T)
	where T: Serialize<Track<16, 16, 8, { isize::MAX as usize - 15 }, RecDefault>> {
		let v = ManuallyDrop::new(v);
		let mut s = Track { unrelated: PosMapping::dummy(), out: RecDefault::any(), count: 0, at: PosMapping::dummy() };
		s.serialize_value(&*v);
		mem::forget(s.finalize());
	}
	fn offset<T>(v: T)
	where T: Serialize<Offset<16, 16, 8, { isize::MAX as usize - 15 }>> {
		let v = ManuallyDrop::new(v);
		let mut s = Offset { unrelated: PosMapping::dummy(), out: RecDefault::any(), at: PosMapping::dummy() };
		s.serialize_value(&*v);
		mem::forget(s.finalize());
	}
	fn complete<T>(v: T)
	where T: for<'a> Serialize<Complete<'a, 16, 16, 8, { isize::MAX as usize - 15 }>> {
		let v = ManuallyDrop::new(v);
		let mut out = RecDefault::any();
		let mut s = Complete { unrelated: PosMapping::dummy(), out: &mut out, at: PosMapping::dummy(), written: Ptrs::new(), more: Ptrs::new() };
		s.serialize_value(&*v);
		s.finalize();
		mem::forget(out);
	}

	/// Replaces the last of its numbers, and counts how often the closure ran.
	struct Patch {
		keep: u64,
		change: u64,
		with: u64,
	}
	static mut RAN: usize = 0x7101;
	impl<S: Serializer> Serialize<S> for Patch {
		fn serialize_data(&self, s: &mut S) {
			s.overwrite_with(|s| unsafe {
				RAN += 1;
				s.overwrite(S::Addr::from_ref(&self.change), &self.with);
			});
			unsafe { s.overwrite(S::Addr::from_ref_offset(self, mem::size_of::<u64>() * 2), &0u64) };
		}
	}
	fn patch() -> (u64, Box<Patch>) {
		(nd::any(), Box::new(Patch { keep: nd::any(), change: nd::any(), with: nd::any() }))
	}
	fn check_patch(v: &(u64, Box<Patch>), s: &SPacked, runs: bool) {
		assert!(s.pos() == 40, "derived serializer yields other length of output");
		let start = &*v.1 as *const Patch as usize;
		let at = |field: &u64| unsafe { s.as_ptr().add(16 + (field as *const u64 as usize - start)).cast::<u64>().read() };
		assert!(at(&v.1.keep) == v.1.keep, "overwriting changed something else");
		assert!(at(&v.1.change) == if runs { v.1.with } else { v.1.change }, "overwriting is not as with the built-in serializer");
		let third = unsafe { (start as *const u64).add(2) };
		let is_zero = at(unsafe { &*third }) == 0;
		assert!(is_zero || (!runs && at(unsafe { &*third }) == unsafe { *third }), "overwriting is not as with the built-in serializer");
		assert!(unsafe { RAN } == 0x7101 + runs as usize, "closure which overwrites did not run as it should");
	}

	macro_rules! real {
		($($name:ident $fn:ident $kind:ident $runs:literal { $($attr:ident $field:ident $ty:ident)* };)*) => {$(
			#[derive(Serializer)]
			#[ser_type($kind)]
			pub struct $name {
				pub spare: u8,
				$( #[$attr] $field: $ty, )*
				#[ser_storage(SPacked)]
				storage: SPacked,
			}
			fn $fn() {
				let v = ManuallyDrop::new(patch());
				let s = $name { spare: 1, $( $field: $ty::blank(), )* storage: SPacked::new() };
				let (_, out) = s.serialize(&*v);
				check_patch(&v, &out, $runs);
				mem::forget(out);
			}
		)*};
	}
	trait Blank {
		fn blank() -> Self;
	}
	impl Blank for PosMapping {
		fn blank() -> Self {
			PosMapping::dummy()
		}
	}
	impl Blank for Ptrs {
		fn blank() -> Self {
			Ptrs::new()
		}
	}
	real! {
		RealCopy patch_copy pure_copy false {};
		RealTrack patch_track pos_tracking false { ser_pos_mapping at PosMapping };
		RealOffset patch_offset ptr_offset false { ser_pos_mapping at PosMapping };
		RealComplete patch_complete complete true { ser_ptrs written Ptrs ser_pos_mapping at PosMapping };
	}

	crate::harnesses! {
		holds q_track_boxed [kani::unwind(17)] { track(boxed()) }
		holds q_track_deep [kani::unwind(17)] { track(deep()) }
		holds q_track_siblings [kani::unwind(17)] { track(siblings()) }
		holds q_track_vecs [kani::unwind(17)] { track(vecs()) }
		holds q_offset_boxed [kani::unwind(17)] { offset(boxed()) }
		holds q_offset_vecs [kani::unwind(17)] { offset(vecs()) }
		holds q_complete_boxed [kani::unwind(17)] { complete(boxed()) }
		holds q_complete_siblings [kani::unwind(17)] { complete(siblings()) }
		holds q_patch_copy [kani::unwind(10)] { patch_copy() }
		holds q_patch_track [kani::unwind(10)] { patch_track() }
		holds q_patch_offset [kani::unwind(10)] { patch_offset() }
		holds q_patch_complete [kani::unwind(10)] { patch_complete() }
	}
}

/// Named like what the expansion names.
pub mod names {
	use std::mem::{self, ManuallyDrop};

	use ser_raw::Serialize;

	use crate::{kit::SPacked, probe::*, rec::RecDefault};

	pub struct Ptrs;
	pub struct TrackingAddr;
	#[derive(ser_raw::Serializer)]
	#[ser_type(complete)]
	pub struct Complete<T, P, W> {
		#[ser_storage(RecDefault)]
		ser_traits: RecDefault,
		#[ser_ptrs]
		storage: ser_raw::pos::Ptrs,
		#[ser_pos_mapping]
		ptrs: ser_raw::pos::PosMapping,
		pub unused: (Vec<T>, Vec<P>, Vec<W>, Ptrs),
	}
	#[derive(ser_raw::Serializer)]
	#[ser_type(ptr_offset)]
	pub struct PtrWriting<'r, P: Into<u64>, const T: usize> {
		pub unused: (TrackingAddr, P),
		#[ser_pos_mapping]
		storage: ser_raw::pos::PosMapping,
		#[ser_storage(RecDefault)]
		pos_mapping: &'r mut RecDefault,
	}
	pub mod inner {
		#[derive(ser_raw::Serializer)]
		#[ser_type(pos_tracking)]
		pub struct Serializer<T>
		where T: core::borrow::BorrowMut<crate::rec::RecDefault> {
			#[ser_storage(crate::rec::RecDefault)]
			pub pos_mapping: T,
			#[ser_pos_mapping]
			pub storage: ser_raw::pos::PosMapping,
		}
		#[derive(ser_raw::Serializer)]
		#[ser_type(pure_copy)]
		pub struct PosTracking<W: core::borrow::BorrowMut<crate::kit::SPacked>> {
			#[ser_storage(crate::kit::SPacked)]
			pub value: W,
		}
	}
	use ser_raw::pos::{PosMapping, Ptrs as P};

	fn complete() {
		let v = ManuallyDrop::new(boxed());
		let s = Complete::<u8, u8, u8> {
			ser_traits: RecDefault::any(),
			storage: P::new(),
			ptrs: PosMapping::dummy(),
			unused: (Vec::new(), Vec::new(), Vec::new(), Ptrs),
		};
		mem::forget(ser_raw::Serializer::serialize(s, &*v).1);
	}
	fn offset() {
		let v = ManuallyDrop::new(boxed());
		let mut out = RecDefault::any();
		let s = PtrWriting::<u8, 3> { unused: (TrackingAddr, 1), storage: PosMapping::dummy(), pos_mapping: &mut out };
		ser_raw::Serializer::serialize(s, &*v);
		mem::forget(out);
	}
	fn track() {
		let v = ManuallyDrop::new(boxed());
		let s = inner::Serializer { pos_mapping: RecDefault::any(), storage: PosMapping::dummy() };
		mem::forget(ser_raw::Serializer::serialize(s, &*v).1);
	}
	fn copy() {
		use ser_raw::storage::Storage;
		let mut out = SPacked::new();
		let v = ManuallyDrop::new((crate::nd::any::<u64>(), Box::new(crate::nd::any::<u32>())));
		let (pos, _) = ser_raw::Serializer::serialize(inner::PosTracking { value: &mut out }, &*v);
		assert!(pos == 0 && out.pos() == 20, "derived serializer yields other output");
		assert!(unsafe { *ser_raw::storage::RandomAccessStorage::read::<u32>(&out, 16) } == *v.1, "derived serializer yields other output");
		mem::forget(out);
	}
	fn needs<S: ser_raw::Serializer, T: Serialize<S>>() {}

	crate::harnesses! {
		holds q_complete [kani::unwind(17)] { complete() }
		holds q_offset [kani::unwind(17)] { offset() }
		holds q_track [kani::unwind(17)] { track() }
		holds q_copy [kani::unwind(17)] { copy() }
	}
}
