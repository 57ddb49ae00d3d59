//! C01: output of the complete serializer is a valid, equal value.

use std::mem::ManuallyDrop;

use ser_raw::{
	storage::{AlignedVec, Storage},
	CompleteSerializer, Serialize, Serializer,
};

use crate::{kit::*, shapes::*};

type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	CompleteSerializer<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

fn run<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, T>(
	_: AlignedVec<SA, MVA, VA, MAX>,
	v: T,
	cap: usize,
) where
	T: Same + Serialize<Ser<SA, MVA, VA, MAX>>,
{
	let v = ManuallyDrop::new(v);
	let ser = match cap {
		0 => Ser::<SA, MVA, VA, MAX>::new(),
		_ => Ser::<SA, MVA, VA, MAX>::with_capacity(cap),
	};
	let (pos, storage) = ser.serialize(&*v);
	check_same(&*v, pos, &storage, Ptr::Addr);
}

shape_harnesses!(run);
