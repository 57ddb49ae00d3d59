//! C16: overwriting changes exactly its target, where it is supported.

use std::{
	borrow::{Borrow, BorrowMut},
	mem::{self, ManuallyDrop},
};

use ser_raw::{
	ser_traits,
	pos::{Addr, NoopAddr, PosMapping, Ptrs, TrackingAddr},
	storage::{AlignedVec, ContiguousStorage, Storage},
	util::aligned_max_capacity,
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{harnesses, kit::*, nd, shapes::*};

/// What a serializer makes of requests to overwrite.
pub trait Does {
	const OVERWRITES: bool;
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B> Does
	for CompleteSerializer<SA, MVA, VA, MAX, B>
where B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>
{
	const OVERWRITES: bool = true;
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B> Does
	for PtrOffsetSerializer<SA, MVA, VA, MAX, B>
where B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>
{
	const OVERWRITES: bool = false;
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, B> Does
	for PureCopySerializer<SA, MVA, VA, MAX, B>
where B: BorrowMut<AlignedVec<SA, MVA, VA, MAX>>
{
	const OVERWRITES: bool = false;
}

/// Serializer which is not derived, with everything left as the trait has it.
pub struct Plain<A> {
	storage: SDefault,
	_addr: std::marker::PhantomData<A>,
}
impl<A: Addr> Serializer for Plain<A> {
	type Storage = SDefault;
	type BorrowedStorage = SDefault;
	type Addr = A;
	fn storage(&self) -> &SDefault {
		&self.storage
	}
	fn storage_mut(&mut self) -> &mut SDefault {
		&mut self.storage
	}
	fn into_storage(self) -> SDefault {
		self.storage
	}
}
impl<A> Does for Plain<A> {
	const OVERWRITES: bool = false;
}

/// Tracks positions but does not overwrite.
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct Tracks {
	#[ser_storage(SDefault)]
	storage: SDefault,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}
impl Does for Tracks {
	const OVERWRITES: bool = false;
}

/// Put together by hand from the traits which serializers are composed of, with the other of the
/// two provided ways to overwrite.
pub struct Composed {
	storage: SDefault,
	pos_mapping: PosMapping,
	ptrs: Ptrs,
}
impl Serializer for Composed {
	type Storage = SDefault;
	type BorrowedStorage = SDefault;
	type Addr = TrackingAddr;
	fn storage(&self) -> &SDefault {
		&self.storage
	}
	fn storage_mut(&mut self) -> &mut SDefault {
		&mut self.storage
	}
	fn into_storage(self) -> SDefault {
		self.storage
	}
	fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
		ser_traits::PosTracking::do_serialize_value(self, value)
	}
	fn push_slice<T>(&mut self, slice: &[T], ptr_addr: TrackingAddr) -> usize {
		ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
	}
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], ptr_addr: TrackingAddr, process: P) -> usize {
		ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
	}
	unsafe fn overwrite<T>(&mut self, addr: TrackingAddr, value: &T) {
		ser_traits::Complete::do_overwrite(self, addr, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		ser_traits::Complete::do_overwrite_with(self, write)
	}
	fn finalize(self) -> SDefault {
		ser_traits::Complete::do_finalize(self)
	}
}
impl ser_traits::PosTracking for Composed {
	fn pos_mapping(&self) -> &PosMapping {
		&self.pos_mapping
	}
	fn set_pos_mapping(&mut self, pos_mapping: PosMapping) {
		self.pos_mapping = pos_mapping;
	}
}
impl ser_traits::PtrWriting for Composed {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		ser_traits::Complete::do_overwrite_ptr(self, ptr_pos, target_pos)
	}
}
impl ser_traits::Writable for Composed {}
impl ser_traits::Complete for Composed {
	fn ptrs(&self) -> &Ptrs {
		&self.ptrs
	}
	fn ptrs_mut(&mut self) -> &mut Ptrs {
		&mut self.ptrs
	}
}
impl Does for Composed {
	const OVERWRITES: bool = true;
}

/// Overwrites, over storage in any state.
pub type Rec = crate::rec::RecPacked;
#[derive(Serializer)]
#[ser_type(complete)]
pub struct Overwrites {
	#[ser_storage(Rec)]
	storage: Rec,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
}
impl Does for Overwrites {
	const OVERWRITES: bool = true;
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct Ignores {
	#[ser_storage(Rec)]
	storage: Rec,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}
impl Does for Ignores {
	const OVERWRITES: bool = false;
}

/// When the target is overwritten. Each is asked for in closure and directly.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum When {
	Before,
	After,
	Both,
	Direct,
}

/// Has `target` replaced by `instead` in its copy.
pub struct Patch<T: 'static, C> {
	pub before: u8,
	pub target: T,
	pub after: u16,
	pub child: C,
	pub last: u8,
	/// Not in the output's way: owned elsewhere
	pub instead: &'static T,
	pub when: When,
}

impl<T: 'static, C> Patch<T, C> {
	fn request<S: Serializer + Does>(&self, s: &mut S) {
		let addr = S::Addr::from_ref(&self.target);
		if self.when == When::Direct {
			unsafe { s.overwrite(addr, self.instead) };
			return;
		}
		let mut runs = 0;
		let count = &mut runs;
		s.overwrite_with(|s| {
			*count += 1;
			let addr = S::Addr::from_ref(&self.target);
			unsafe { s.overwrite(addr, self.instead) };
		});
		assert!(runs == S::OVERWRITES as usize, "request to overwrite is run when it should not be, or not once");
	}
}

impl<S: Serializer + Does, T: 'static, C: Serialize<S>> Serialize<S> for Patch<T, C> {
	fn serialize_data(&self, s: &mut S) {
		let before = s.pos();
		if self.when != When::After {
			self.request(s);
		}
		assert!(s.pos() == before, "overwriting moves position");
		self.child.serialize_data(s);
		let before = s.pos();
		if self.when == When::After || self.when == When::Both {
			self.request(s);
		}
		assert!(s.pos() == before, "overwriting moves position");
	}
}

/// What is expected depends on the serializer.
pub trait Expect {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model);
}

impl<T: Same + 'static, C: Expect> Expect for Patch<T, C> {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		unsafe {
			use std::ptr::addr_of;
			self.before.same(addr_of!((*out).before), m);
			if overwritten {
				self.instead.same(addr_of!((*out).target), m);
			} else {
				self.target.same(addr_of!((*out).target), m);
			}
			self.after.same(addr_of!((*out).after), m);
			self.child.expect(addr_of!((*out).child), overwritten, m);
			self.last.same(addr_of!((*out).last), m);
			let p = addr_of!((*out).instead) as *const usize;
			assert!(p.read() == self.instead as *const T as usize, "neighbour is changed");
		}
	}
}
impl<T: Same + 'static, C: Expect> Expect for Box<Patch<T, C>> {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		let p = unsafe { (out as *const usize).read() };
		let pos = m.place::<Patch<T, C>>(1);
		m.check_ptr(p, pos, &**self as *const _ as usize);
		(**self).expect(m.at(pos), overwritten, m);
	}
}
impl<T: Same + 'static, C: Expect> Expect for Vec<Patch<T, C>> {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		let p = unsafe { (out as *const usize).add(vec_words::<Patch<T, C>>().0).read() };
		let pos = m.place::<Patch<T, C>>(self.len());
		m.check_ptr(p, pos, self.as_ptr() as usize);
		for i in 0..self.len() {
			self[i].expect(m.at(pos + i * mem::size_of::<Patch<T, C>>()), overwritten, m);
		}
	}
}
impl<A: Expect, B: Expect> Expect for (A, B) {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		self.0.expect(unsafe { std::ptr::addr_of!((*out).0) }, overwritten, m);
		self.1.expect(unsafe { std::ptr::addr_of!((*out).1) }, overwritten, m);
	}
}
macro_rules! expect_same {
	($($t:ty),*) => {$(
		impl Expect for $t {
			fn expect(&self, out: *const Self, _: bool, m: &mut Model) {
				self.same(out, m)
			}
		}
	)*};
}
expect_same!((), u8, u32, Box<u8>, Box<u32>, Vec<u16>);

/// Has the first or last part of it replaced, or all of it.
#[repr(C)]
pub struct Edge {
	pub first: u32,
	pub pad: u32,
	pub instead: &'static [u32; 4],
	pub last: u32,
	pub very_last: u32,
}
impl<S: Serializer + Does> Serialize<S> for Edge {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe {
			let addr = S::Addr::from_ref(&self.very_last);
			s.overwrite(addr, &self.instead[3]);
			let addr = S::Addr::from_ref(&self.first);
			s.overwrite(addr, &self.instead[0]);
		});
	}
}
impl Expect for Edge {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		let o = unsafe { &*out };
		if overwritten {
			assert!(o.first == self.instead[0] && o.very_last == self.instead[3], "not overwritten");
		} else {
			assert!(o.first == self.first && o.very_last == self.very_last, "overwritten");
		}
		assert!(o.pad == self.pad && o.last == self.last, "neighbour is changed");
		assert!(o.instead as *const _ as usize == self.instead as *const _ as usize, "neighbour is changed");
		let _ = m;
	}
}
impl Expect for Box<Edge> {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		let p = unsafe { (out as *const usize).read() };
		let pos = m.place::<Edge>(1);
		m.check_ptr(p, pos, &**self as *const _ as usize);
		(**self).expect(m.at(pos), overwritten, m);
	}
}
impl Expect for Vec<Edge> {
	fn expect(&self, out: *const Self, overwritten: bool, m: &mut Model) {
		let p = unsafe { (out as *const usize).add(vec_words::<Edge>().0).read() };
		let pos = m.place::<Edge>(self.len());
		m.check_ptr(p, pos, self.as_ptr() as usize);
		for i in 0..self.len() {
			self[i].expect(m.at(pos + i * mem::size_of::<Edge>()), overwritten, m);
		}
	}
}
fn edge() -> Edge {
	Edge { first: nd::any(), pad: nd::any(), instead: Box::leak(Box::new(nd::any_array())), last: nd::any(), very_last: nd::any() }
}

fn patch<T: 'static, C>(make: fn() -> T, child: C, when: When) -> Patch<T, C> {
	let instead: &'static T = Box::leak(Box::new(make()));
	Patch { before: nd::any(), target: make(), after: nd::any(), child, last: nd::any(), instead, when }
}

fn check<S: Serializer + Does, T: Expect + Serialize<S>>(mut ser: S, v: T, ptrs: Ptr)
where S::Storage: ContiguousStorage {
	let v = ManuallyDrop::new(v);
	let pos = ser.serialize_value(&*v);
	let storage = ser.finalize();
	let s = storage.borrow();
	let mut m = Model::new(s, 0, ptrs);
	let expect = m.place::<T>(1);
	assert!(pos == expect, "position of value is wrong");
	v.expect(m.at(expect), S::OVERWRITES, &mut m);
	assert!(s.pos() == m.pos, "final position is wrong");
	mem::forget(storage);
}

const MAX: usize = aligned_max_capacity(16);
fn complete(cap: usize) -> CompleteSerializer<16, 16, 8, MAX, SDefault> {
	CompleteSerializer::from_storage(SDefault::with_capacity(cap))
}
fn packed(cap: usize) -> CompleteSerializer<16, 16, 1, MAX, SPacked> {
	CompleteSerializer::from_storage(SPacked::with_capacity(cap))
}
fn offset(cap: usize) -> PtrOffsetSerializer<16, 16, 8, MAX, SDefault> {
	PtrOffsetSerializer::from_storage(SDefault::with_capacity(cap))
}
fn pure(cap: usize) -> PureCopySerializer<16, 16, 1, MAX, SPacked> {
	PureCopySerializer::from_storage(SPacked::with_capacity(cap))
}
fn plain<A>(cap: usize) -> Plain<A> {
	Plain { storage: SDefault::with_capacity(cap), _addr: std::marker::PhantomData }
}
fn composed(cap: usize) -> Composed {
	Composed { storage: SDefault::with_capacity(cap), pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() }
}
fn tracks(cap: usize) -> Tracks {
	Tracks { storage: SDefault::with_capacity(cap), pos_mapping: PosMapping::dummy() }
}

fn boxed(when: When) -> Patch<u32, Box<u8>> {
	patch(nd::any, any_box(), when)
}
fn nested(when: When) -> Patch<u64, Box<Patch<u16, Box<Patch<u8, ()>>>>> {
	let inner = patch(nd::any, (), When::Both);
	patch(nd::any, Box::new(patch(nd::any, Box::new(inner), when)), when)
}
fn elements(when: When) -> Vec<Patch<u16, Box<u32>>> {
	vec_exact([patch(nd::any, any_box(), when), patch(nd::any, any_box(), When::After)])
}
fn siblings(when: When) -> (Patch<u8, Vec<u16>>, Patch<u32, Box<u8>>) {
	(patch(nd::any, vec_exact([nd::any(), nd::any()]), when), patch(nd::any, any_box(), when))
}
fn bytes(when: When) -> Patch<[u8; 3], Box<u8>> {
	patch(bytes3, any_box(), when)
}
fn wide(when: When) -> Patch<u128, ()> {
	patch(nd::any, (), when)
}
fn string_target(when: When) -> Patch<(u8, u64, u16), Box<u8>> {
	patch(|| (nd::any(), nd::any(), nd::any()), any_box(), when)
}
fn unit(when: When) -> Patch<(), Box<u8>> {
	patch(|| (), any_box(), when)
}

/// From any state of storage on: what is written, and where.
fn rec<T: 'static, C>(v: Patch<T, C>)
where Patch<T, C>: Serialize<Overwrites> + Serialize<Ignores> {
	let v = ManuallyDrop::new(v);
	let mut ser = Overwrites { storage: Rec::any(), pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	let pos = ser.serialize_value(&*v);
	let target = pos + (&v.target as *const T as usize - &*v as *const Patch<T, C> as usize);
	let s = ser.finalize();
	let mut n = 0;
	let mut i = 0;
	while i < s.sn {
		let (at, size, src) = s.spans[i];
		if src == v.instead as *const T as usize && size == mem::size_of::<T>() {
			assert!(at == target, "overwritten in wrong place");
			n += 1;
		} else {
			// All else is for pointers, which are elsewhere
			assert!(size == 8 && (at >= target + mem::size_of::<T>() || at + 8 <= target), "something else is overwritten");
		}
		i += 1;
	}
	let expect = if v.when == When::Both { 2 } else { 1 };
	assert!(n == expect, "not overwritten as often as requested");
	mem::forget(s);

	let mut ser = Ignores { storage: Rec::any(), pos_mapping: PosMapping::dummy() };
	ser.serialize_value(&*v);
	let s = ser.finalize();
	let mut i = 0;
	while i < s.sn {
		assert!(s.spans[i].2 != v.instead as *const T as usize, "overwritten by serializer which does not support it");
		i += 1;
	}
	mem::forget(s);
}

/// Overwriting part of an allocation which the serializer was told of directly.
fn slices() {
	struct Direct {
		a: u8,
		slice: &'static [u32],
		instead: &'static u32,
	}
	impl<S: Serializer + Does> Serialize<S> for Direct {
		fn serialize_data(&self, s: &mut S) {
			let addr = S::Addr::from_ref(&self.slice);
			s.push_and_process_slice(self.slice, addr, |s| {
				s.push_raw(&nd::any::<u64>());
				let addr = S::Addr::from_ref_offset(&self.slice[0], 8);
				unsafe { s.overwrite(addr, self.instead) };
				s.push_raw(&nd::any::<u64>());
			});
		}
	}
	let input: &'static [u32; 4] = Box::leak(Box::new(nd::any_array()));
	let instead: &'static u32 = Box::leak(Box::new(nd::any()));
	let v = Direct { a: nd::any(), slice: input, instead };
	let mut s = complete(0);
	let pos = s.serialize_value(&v);
	let at = pos + mem::size_of::<Direct>();
	let storage = s.finalize();
	let out = unsafe { storage.as_ptr().add(at) as *const u32 };
	for i in 0..4 {
		let expect = if i == 2 { *instead } else { input[i] };
		assert!(unsafe { out.add(i).read() } == expect, "part of slice is wrong");
	}
	let out = unsafe { storage.as_ptr().add(pos) };
	assert!(unsafe { out.add(&v.a as *const u8 as usize - &v as *const Direct as usize).read() } == v.a, "neighbour is changed");
	mem::forget(storage);
}

harnesses! {
	holds q_boxed_before [kani::unwind(10)] { check(complete(0), boxed(When::Before), Ptr::Addr) }
	holds q_boxed_after [kani::unwind(10)] { check(packed(0), boxed(When::After), Ptr::Addr) }
	holds q_boxed_both [kani::unwind(10)] { check(complete(256), boxed(When::Both), Ptr::Addr) }
	holds q_boxed_direct [kani::unwind(10)] { check(packed(256), boxed(When::Direct), Ptr::Addr) }
	holds q_nested_before [kani::unwind(10)] { check(complete(0), nested(When::Before), Ptr::Addr) }
	holds q_nested_after [kani::unwind(10)] { check(packed(0), nested(When::After), Ptr::Addr) }
	holds q_nested_both [kani::unwind(10)] { check(complete(512), nested(When::Both), Ptr::Addr) }
	holds q_nested_direct [kani::unwind(10)] { check(complete(512), nested(When::Direct), Ptr::Addr) }
	holds q_elements_before [kani::unwind(10)] { check(complete(0), elements(When::Before), Ptr::Addr) }
	holds q_elements_after [kani::unwind(10)] { check(packed(256), elements(When::After), Ptr::Addr) }
	holds q_siblings_before [kani::unwind(10)] { check(complete(0), siblings(When::Before), Ptr::Addr) }
	holds q_siblings_after [kani::unwind(10)] { check(packed(0), siblings(When::After), Ptr::Addr) }
	holds q_bytes_before [kani::unwind(10)] { check(complete(0), bytes(When::Before), Ptr::Addr) }
	holds q_bytes_after [kani::unwind(10)] { check(packed(256), bytes(When::After), Ptr::Addr) }
	holds q_wide_before [kani::unwind(10)] { check(complete(0), wide(When::Before), Ptr::Addr) }
	holds q_wide_direct [kani::unwind(10)] { check(packed(256), wide(When::Direct), Ptr::Addr) }
	holds q_struct_before [kani::unwind(10)] { check(complete(0), string_target(When::Before), Ptr::Addr) }
	holds q_unit_before [kani::unwind(10)] { check(complete(0), unit(When::Before), Ptr::Addr) }
	holds q_edge [kani::unwind(10)] { check(complete(0), edge(), Ptr::Addr) }
	holds q_edge_packed [kani::unwind(10)] { check(packed(64), edge(), Ptr::Addr) }
	holds q_edge_box [kani::unwind(10)] { check(complete(0), Box::new(edge()), Ptr::Addr) }
	holds q_edge_vec [kani::unwind(10)] { check(packed(0), vec_exact([edge(), edge()]), Ptr::Addr) }
	holds q_edge_two [kani::unwind(10)] { check(complete(256), (edge(), edge()), Ptr::Addr) }
	holds q_edge_offset [kani::unwind(10)] { check(offset(0), edge(), Ptr::Offset) }
	holds q_edge_pure [kani::unwind(10)] { check(pure(0), Box::new(edge()), Ptr::Verbatim) }
	holds q_edge_tracks [kani::unwind(10)] { check(tracks(0), vec_exact([edge(), edge()]), Ptr::Verbatim) }
	holds q_slices [kani::unwind(10)] { slices() }
	holds q_composed_boxed [kani::unwind(10)] { check(composed(0), boxed(When::Both), Ptr::Addr) }
	holds q_composed_nested [kani::unwind(10)] { check(composed(256), nested(When::Before), Ptr::Addr) }
	holds q_composed_siblings [kani::unwind(10)] { check(composed(0), siblings(When::After), Ptr::Addr) }

	holds q_offset_boxed_both [kani::unwind(10)] { check(offset(0), boxed(When::Both), Ptr::Offset) }
	holds q_offset_nested_both [kani::unwind(10)] { check(offset(512), nested(When::Both), Ptr::Offset) }
	holds q_offset_elements_direct [kani::unwind(10)] { check(offset(0), elements(When::Direct), Ptr::Offset) }
	holds q_pure_boxed_both [kani::unwind(10)] { check(pure(0), boxed(When::Both), Ptr::Verbatim) }
	holds q_pure_nested_both [kani::unwind(10)] { check(pure(512), nested(When::Both), Ptr::Verbatim) }
	holds q_pure_elements_direct [kani::unwind(10)] { check(pure(0), elements(When::Direct), Ptr::Verbatim) }
	holds q_tracks_boxed_both [kani::unwind(10)] { check(tracks(0), boxed(When::Both), Ptr::Verbatim) }
	holds q_tracks_nested_both [kani::unwind(10)] { check(tracks(512), nested(When::Both), Ptr::Verbatim) }
	holds q_tracks_elements_direct [kani::unwind(10)] { check(tracks(0), elements(When::Direct), Ptr::Verbatim) }
	holds q_plain_boxed_both [kani::unwind(10)] { check(plain::<NoopAddr>(0), boxed(When::Both), Ptr::Verbatim) }
	holds q_plain_nested_both [kani::unwind(10)] { check(plain::<TrackingAddr>(512), nested(When::Both), Ptr::Verbatim) }
	holds q_plain_elements_direct [kani::unwind(10)] { check(plain::<TrackingAddr>(0), elements(When::Direct), Ptr::Verbatim) }

	holds q_rec_boxed_before [kani::unwind(17)] { rec(boxed(When::Before)) }
	holds q_rec_boxed_both [kani::unwind(17)] { rec(boxed(When::Both)) }
	holds q_rec_nested_before [kani::unwind(17)] { rec_nested(When::Before) }
	holds q_rec_nested_after [kani::unwind(17)] { rec_nested(When::After) }
	holds q_rec_bytes_direct [kani::unwind(17)] { rec(bytes(When::Direct)) }
	holds q_rec_wide_after [kani::unwind(17)] { rec(wide(When::After)) }
	holds q_rec_struct_both [kani::unwind(17)] { rec(string_target(When::Both)) }
}

/// The innermost target, wherever its copy is.
fn rec_nested(when: When) {
	let v = ManuallyDrop::new((nd::any::<u8>(), Box::new(patch::<u16, Box<u8>>(nd::any, any_box(), when))));
	let mut ser = Overwrites { storage: Rec::any(), pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	ser.serialize_value(&*v);
	let s = ser.finalize();
	let target = &v.1.target as *const u16 as usize;
	let owner = &s.pushes[1];
	assert!(owner.src == &*v.1 as *const _ as usize, "position of target is unknown");
	let target = owner.pos + (target - owner.src);
	let mut n = 0;
	let mut i = 0;
	while i < s.sn {
		let (at, size, src) = s.spans[i];
		if src == v.1.instead as *const u16 as usize {
			assert!(at == target && size == 2, "overwritten in wrong place");
			n += 1;
		} else {
			assert!(size == 8 && (at >= target + 2 || at + 8 <= target), "something else is overwritten");
		}
		i += 1;
	}
	assert!(n == 1, "not overwritten as often as requested");
	mem::forget(s);
}
