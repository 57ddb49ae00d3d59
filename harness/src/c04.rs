//! C04: pointer-offset serializer writes the position of each pointee.

use std::mem::ManuallyDrop;

use ser_raw::{
	storage::{AlignedVec, Storage},
	PtrOffsetSerializer, Serialize, Serializer,
};

use crate::{kit::*, shapes::*};

type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(
	_: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	cap: usize,
) where
	T: Same + Serialize<Ser<SA, MVA, VA, MAX>>,
{
	let v = ManuallyDrop::new(v);
	let ser = match cap {
		0 => Ser::<SA, MVA, VA, MAX>::new(),
		_ => Ser::<SA, MVA, VA, MAX>::with_capacity(cap),
	};
	let (pos, storage) = ser.serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Offset);
}

shape_harnesses!(run);

/// From any state of storage on, with a user-defined serializer.
pub mod rec {
	use std::mem::ManuallyDrop;

	use ser_raw::{pos::PosMapping, Serialize, Serializer};

	use crate::{kit::*, rec::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(ptr_offset)]
	pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: Rec<SA, MVA, VA, MAX>,
		#[ser_pos_mapping]
		pos_mapping: PosMapping,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(storage: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + Serialize<Mine<SA, MVA, VA, MAX>> {
		let v = ManuallyDrop::new(v);
		let mut ser = Mine { storage, pos_mapping: PosMapping::dummy() };
		let pos = ser.serialize_value(&*v);
		let s = ser.finalize();
		check_walk(&v, pos, &s, Ptr::Offset);
	}

	rec_harnesses!(run);
}
