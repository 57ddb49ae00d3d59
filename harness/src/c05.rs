//! C05: output layout.

use std::mem::ManuallyDrop;

use ser_raw::{
	storage::{AlignedVec, Storage},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{kit::*, shapes::*};

type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	PureCopySerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;
type SerO<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	PtrOffsetSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;
type SerC<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(
	_: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	cap: usize,
) where
	T: Same + Serialize<Ser<SA, MVA, VA, MAX>> + Serialize<SerO<SA, MVA, VA, MAX>> + Serialize<SerC<SA, MVA, VA, MAX>>,
{
	let v = ManuallyDrop::new(v);
	let ser = match cap {
		0 => Ser::<SA, MVA, VA, MAX>::new(),
		_ => Ser::<SA, MVA, VA, MAX>::with_capacity(cap),
	};
	let (pos, storage) = ser.serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Verbatim);
	let (pos, storage) = SerO::<SA, MVA, VA, MAX>::new().serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Offset);
	let (pos, storage) = SerC::<SA, MVA, VA, MAX>::new().serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Addr);
}

shape_harnesses!(run);

/// From any state of storage on, with a user-defined serializer.
pub mod rec {
	use std::mem::ManuallyDrop;

	use ser_raw::{Serialize, Serializer};

	use crate::{kit::*, rec::*, shapes::*};

	#[derive(Serializer)]
	#[ser_type(pure_copy)]
	pub struct Mine<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
		#[ser_storage(Rec<SA, MVA, VA, MAX>)]
		storage: Rec<SA, MVA, VA, MAX>,
	}

	fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(storage: Rec<SA, MVA, VA, MAX>, v: T)
	where T: Walk + Serialize<Mine<SA, MVA, VA, MAX>> {
		let v = ManuallyDrop::new(v);
		let mut ser = Mine { storage };
		let pos = ser.serialize_value(&*v);
		let s = ser.finalize();
		check_walk(&v, pos, &s, Ptr::Verbatim);
	}

	rec_harnesses!(run);
}
