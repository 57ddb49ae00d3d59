//! The serializers which come with the crate, by kind.

use std::borrow::BorrowMut;

use ser_raw::{
	storage::AlignedVec, CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer,
};

use crate::kit::*;

/// A built-in kind of serializer, over storage which it owns or borrows.
pub trait Kind {
	const PTRS: Ptr;
	type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>: Serializer<
		Storage = AlignedVec<SA, MVA, VA, MAX>,
		BorrowedStorage = B,
	>
	where
		B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>;
	fn on<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>(
		storage: B,
	) -> Self::Ser<SA, MVA, VA, MAX, B>
	where
		B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>;
}
macro_rules! kind {
	($name:ident $ser:ident $ptrs:ident) => {
		pub struct $name;
		impl Kind for $name {
			const PTRS: Ptr = Ptr::$ptrs;
			type Ser<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B> = $ser<SA, MVA, VA, MAX, B>
			where
				B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>;
			fn on<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B>(
				storage: B,
			) -> $ser<SA, MVA, VA, MAX, B>
			where
				B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>,
			{
				$ser::from_storage(storage)
			}
		}
	};
}
kind!(Complete CompleteSerializer Addr);
kind!(Offset PtrOffsetSerializer Offset);
kind!(Pure PureCopySerializer Verbatim);

/// Serializer which borrows storage of this kind.
pub type Borrowed<'s, K, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	<K as Kind>::Ser<SA, MVA, VA, MAX, &'s mut AlignedVec<SA, MVA, VA, MAX>>;
pub type Owned<K, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> =
	<K as Kind>::Ser<SA, MVA, VA, MAX, AlignedVec<SA, MVA, VA, MAX>>;

