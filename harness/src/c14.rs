//! C14: position queries while serializing are correct.

use std::mem::{self, ManuallyDrop};

use ser_raw::{
	pos::{ActiveAddr, Addr, NoopAddr, PosMapping, Ptrs, TrackingAddr},
	ser_traits::PosTracking,
	storage::Storage,
	util::aligned_max_capacity,
	CompleteSerializer, PtrOffsetSerializer, Serialize, Serializer,
};

use crate::{harnesses, kit::*, nd, probe::*, rec::*};

// ---------------------------------------------------------------------------
// The mapping itself, over any addresses

/// An address of anyone's making.
#[derive(Clone, Copy)]
struct At(usize);
impl Addr for At {
	fn from_ref<T>(_: &T) -> Self {
		At(0)
	}
	fn from_ref_offset<T>(_: &T, _: usize) -> Self {
		At(0)
	}
}
impl ActiveAddr for At {
	fn addr(&self) -> usize {
		self.0
	}
}

/// Reference which is not to be read through.
fn fake_ref<T>(addr: usize) -> &'static T {
	unsafe { mem::transmute::<usize, &'static T>(addr) }
}

/// Start of an allocation, offset in it, position of its copy.
fn any_place(align: usize) -> (usize, usize, usize) {
	let (addr, offset, pos): (usize, usize, usize) = (nd::any(), nd::any(), nd::any());
	nd::assume(addr != 0 && offset <= isize::MAX as usize && addr <= usize::MAX - offset);
	nd::assume(pos <= isize::MAX as usize && pos + offset <= isize::MAX as usize);
	nd::assume(addr % align == 0 && offset % align == 0);
	(addr, offset, pos)
}

fn mapping() {
	let (addr, offset, pos) = any_place(1);
	let m = PosMapping::new(addr, pos);
	assert!(m.pos_for_addr(At(addr + offset)) == pos + offset, "position for address is wrong");
	let copy = m;
	assert!(copy.pos_for_addr(At(addr)) == pos, "position for start is wrong");
}
fn mapping_ref<T: 'static>() {
	let (addr, offset, pos) = any_place(mem::align_of::<T>());
	let m = PosMapping::new(addr, pos);
	assert!(m.pos_for(fake_ref::<T>(addr + offset)) == pos + offset, "position for value is wrong");
}
fn tracking<T: 'static>() {
	let (addr, offset, pos) = any_place(mem::align_of::<T>());
	let r = fake_ref::<T>(addr);
	assert!(TrackingAddr::from_ref(r).addr() == addr, "address of reference is wrong");
	assert!(TrackingAddr::from_ref_offset(r, offset).addr() == addr + offset, "address with offset is wrong");
	let m = PosMapping::new(addr, pos);
	assert!(m.pos_for_addr(TrackingAddr::from_ref_offset(r, offset)) == pos + offset, "position for offset is wrong");
	let _ = NoopAddr::from_ref(r);
	assert!(mem::size_of_val(&NoopAddr::from_ref_offset(r, offset)) == 0, "no-op address takes space");
}

// ---------------------------------------------------------------------------
// While serializing

type R = RecPacked;
type D = RecDefault;

macro_rules! sers {
	($($name:ident $kind:ident $st:ident $($extra:ident $ety:ident $attr:ident)?;)*) => {$(
		#[derive(Serializer)]
		#[ser_type($kind)]
		pub struct $name {
			#[ser_storage($st)]
			storage: $st,
			#[ser_pos_mapping]
			pos_mapping: PosMapping,
			$( #[$attr] $extra: $ety, )?
		}
	)*};
}
sers! {
	SerComplete complete R ptrs Ptrs ser_ptrs;
	SerOffset ptr_offset R;
	SerTrack pos_tracking R;
	SerCompleteD complete D ptrs Ptrs ser_ptrs;
	SerOffsetD ptr_offset D;
	SerTrackD pos_tracking D;
}

trait New: PosTracking {
	fn on(storage: Self::Storage) -> Self;
	fn any() -> Self;
}
macro_rules! new {
	($($name:ident $($extra:ident)?),*) => {$(
		impl New for $name {
			fn on(storage: Self::Storage) -> Self {
				Self { storage, pos_mapping: PosMapping::dummy(), $($extra: Ptrs::new())? }
			}
			fn any() -> Self {
				Self::on(Rec::any())
			}
		}
	)*};
}
new!(SerComplete ptrs, SerOffset, SerTrack, SerCompleteD ptrs, SerOffsetD, SerTrackD);

fn serialize<S: New, T: Serialize<S>>(v: T) {
	let v = ManuallyDrop::new(v);
	let mut s = S::any();
	s.serialize_value(&*v);
	mem::forget(s.finalize());
}

fn twice<S: New, T: Serialize<S>>(v: T, w: T) {
	let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
	let mut s = S::any();
	s.serialize_value(&*v);
	s.serialize_value(&*w);
	mem::forget(s.finalize());
}

/// Closures given to the serializer directly.
fn direct<S: New<Storage = RecPacked>>() {
	struct Direct;
	// Allocation known to the serializer by a pointer in the value
	struct Owner {
		tag: u16,
		ptr: usize,
		more: u8,
	}
	impl<S: PosTracking<Storage = RecPacked>> Serialize<S> for Owner {
		fn serialize_data(&self, s: &mut S) {
			static OUTER: [u32; 3] = [7, 8, 9];
			static INNER: u64 = 5;
			ask(s, &self.tag);
			let addr = S::Addr::from_ref(&self.ptr);
			let before = s.pos();
			let at = s.push_and_process_slice(&OUTER, addr, |s| {
				ask(s, &OUTER[0]);
				ask(s, &OUTER[2]);
			});
			assert!(at >= before && at == s.storage().locate(OUTER.as_ptr() as usize), "position returned is wrong");
			ask(s, &self.more);
			let at = s.push_and_process(&INNER, addr, |s| {
				ask(s, &INNER);
			});
			assert!(at == s.storage().locate(&INNER as *const u64 as usize), "position returned is wrong");
			ask(s, &self.ptr);
			let at = s.push_slice(&OUTER[..2], addr);
			assert!(s.storage().pushes[3].pos == at, "position returned is wrong");
			ask(s, &self.more);
			let at = s.push(&INNER, addr);
			assert!(s.storage().pushes[4].pos == at, "position returned is wrong");
			ask(s, self);
			let at = s.push_raw(&self.more);
			assert!(s.storage().pushes[5].pos == at, "position returned is wrong");
			let at = s.push_raw_bytes(&[1, 2, 3]);
			assert!(s.storage().pushes[6].pos == at, "position returned is wrong");
			let at = s.pos();
			let empty = s.push_empty::<u32>();
			assert!(empty >= at && empty + 4 <= s.pos(), "position returned is wrong");
		}
	}
	let _ = Direct;
	let o = ManuallyDrop::new(Owner { tag: 1, ptr: 2, more: 3 });
	let mut s = S::any();
	let n = s.serialize_value(&*o);
	assert!(s.pos_for(&o.more) == n + (&o.more as *const u8 as usize - &*o as *const Owner as usize), "position after the end is wrong");
	mem::forget(s.finalize());
}

// ---------------------------------------------------------------------------
// Serializers which come with the crate, over real memory

/// Knows where its copy goes.
struct Placed<T> {
	expect: usize,
	child: T,
	last: u16,
}
impl<S: PosTracking, T: Serialize<S>> Serialize<S> for Placed<T> {
	fn serialize_data(&self, s: &mut S) {
		let last = &self.last as *const u16 as usize - self as *const Self as usize;
		assert!(s.pos_for(self) == self.expect, "position of value in progress is wrong");
		assert!(s.pos_for(&self.last) == self.expect + last, "position of part is wrong");
		self.child.serialize_data(s);
		assert!(s.pos_for(self) == self.expect, "position of value in progress is wrong");
		assert!(s.pos_for(&self.last) == self.expect + last, "position of part is wrong");
	}
}
fn placed<T>(expect: usize, child: T) -> Placed<T> {
	Placed { expect, child, last: nd::any() }
}
/// 24 bytes each up to the innermost, which is 16.
fn nested(start: usize) -> Placed<Box<Placed<Box<Placed<()>>>>> {
	placed(start, Box::new(placed(start + 24, Box::new(placed(start + 48, ())))))
}
type Pair = Placed<(Vec<Placed<Box<u64>>>, Box<Placed<u8>>)>;
fn pair(start: usize) -> Pair {
	let end = start + mem::size_of::<Pair>();
	let each = mem::size_of::<Placed<Box<u64>>>();
	let vec = vec_with_cap([placed(end, any_box()), placed(end + each, any_box())], 3);
	placed(start, (vec, Box::new(placed(end + each * 2 + 16, nd::any()))))
}

fn builtin_complete<T>(make: impl Fn(usize) -> T)
where T: Serialize<CompleteSerializer<16, 16, 8, { aligned_max_capacity(16) }, SDefault>> {
	let mut s = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, SDefault>::with_capacity(256);
	let v = ManuallyDrop::new(make(0));
	s.serialize_value(&*v);
	let w = ManuallyDrop::new(make(s.pos()));
	s.serialize_value(&*w);
	mem::forget(s.finalize());
}
fn builtin_offset<T>(make: impl Fn(usize) -> T)
where T: Serialize<PtrOffsetSerializer<16, 16, 8, { aligned_max_capacity(16) }, SDefault>> {
	let mut s = PtrOffsetSerializer::<16, 16, 8, { aligned_max_capacity(16) }, SDefault>::with_capacity(256);
	let v = ManuallyDrop::new(make(0));
	s.serialize_value(&*v);
	let w = ManuallyDrop::new(make(s.pos()));
	s.serialize_value(&*w);
	mem::forget(s.finalize());
}

harnesses! {
	holds q_complete_nested [kani::unwind(10)] { builtin_complete(nested) }
	holds q_complete_pair [kani::unwind(10)] { builtin_complete(pair) }
	holds q_offset_nested [kani::unwind(10)] { builtin_offset(nested) }
	holds q_offset_pair [kani::unwind(10)] { builtin_offset(pair) }

	holds q_mapping [kani::unwind(17)] { mapping() }
	holds q_mapping_u8 [kani::unwind(17)] { mapping_ref::<u8>() }
	holds q_mapping_u64 [kani::unwind(17)] { mapping_ref::<u64>() }
	holds q_mapping_unit [kani::unwind(17)] { mapping_ref::<()>() }
	holds q_tracking_u8 [kani::unwind(17)] { tracking::<u8>() }
	holds q_tracking_u64 [kani::unwind(17)] { tracking::<u64>() }
	holds q_tracking_vec [kani::unwind(17)] { tracking::<Vec<u16>>() }

	holds q_rec_complete_boxed [kani::unwind(17)] { serialize::<SerComplete, _>(boxed()) }
	holds q_rec_complete_deep [kani::unwind(17)] { serialize::<SerCompleteD, _>(deep()) }
	holds q_rec_complete_siblings [kani::unwind(17)] { serialize::<SerComplete, _>(siblings()) }
	holds q_rec_complete_vecs [kani::unwind(17)] { serialize::<SerCompleteD, _>(vecs()) }
	holds q_rec_complete_strings [kani::unwind(17)] { serialize::<SerComplete, _>(strings()) }
	holds q_rec_complete_zsts [kani::unwind(17)] { serialize::<SerComplete, _>(zsts()) }
	holds q_rec_complete_arrays [kani::unwind(17)] { serialize::<SerCompleteD, _>(arrays()) }
	holds q_rec_complete_twice [kani::unwind(17)] { twice::<SerComplete, _>(boxed(), boxed()) }
	holds q_rec_complete_direct [kani::unwind(17)] { direct::<SerComplete>() }

	holds q_rec_offset_boxed [kani::unwind(17)] { serialize::<SerOffset, _>(boxed()) }
	holds q_rec_offset_deep [kani::unwind(17)] { serialize::<SerOffsetD, _>(deep()) }
	holds q_rec_offset_siblings [kani::unwind(17)] { serialize::<SerOffset, _>(siblings()) }
	holds q_rec_offset_vecs [kani::unwind(17)] { serialize::<SerOffsetD, _>(vecs()) }
	holds q_rec_offset_strings [kani::unwind(17)] { serialize::<SerOffset, _>(strings()) }
	holds q_rec_offset_zsts [kani::unwind(17)] { serialize::<SerOffset, _>(zsts()) }
	holds q_rec_offset_arrays [kani::unwind(17)] { serialize::<SerOffsetD, _>(arrays()) }
	holds q_rec_offset_twice [kani::unwind(17)] { twice::<SerOffset, _>(boxed(), boxed()) }
	holds q_rec_offset_direct [kani::unwind(17)] { direct::<SerOffset>() }

	holds q_rec_track_boxed [kani::unwind(17)] { serialize::<SerTrack, _>(boxed()) }
	holds q_rec_track_deep [kani::unwind(17)] { serialize::<SerTrackD, _>(deep()) }
	holds q_rec_track_siblings [kani::unwind(17)] { serialize::<SerTrack, _>(siblings()) }
	holds q_rec_track_vecs [kani::unwind(17)] { serialize::<SerTrackD, _>(vecs()) }
	holds q_rec_track_strings [kani::unwind(17)] { serialize::<SerTrack, _>(strings()) }
	holds q_rec_track_zsts [kani::unwind(17)] { serialize::<SerTrack, _>(zsts()) }
	holds q_rec_track_arrays [kani::unwind(17)] { serialize::<SerTrackD, _>(arrays()) }
	holds q_rec_track_twice [kani::unwind(17)] { twice::<SerTrack, _>(boxed(), boxed()) }
	holds q_rec_track_direct [kani::unwind(17)] { direct::<SerTrack>() }
}
