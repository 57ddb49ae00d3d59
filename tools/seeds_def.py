"""Definitions of planted bugs (see seeds.py)."""
TC = 'ser_raw/src/serializer_traits/complete.rs'
TP = 'ser_raw/src/serializer_traits/ptr_writing.rs'
TT = 'ser_raw/src/serializer_traits/pos_tracking.rs'
SM = 'ser_raw/src/storage/mod.rs'
SV = 'ser_raw/src/storage/aligned_vec.rs'
POS = 'ser_raw/src/pos.rs'
IP = 'ser_raw/src/serialize_impls/ptrs.rs'
IB = 'ser_raw/src/serialize_impls/bigint.rs'
IM = 'ser_raw/src/serialize_impls/multiples.rs'
UT = 'ser_raw/src/util.rs'
DE = 'ser_raw_derive/src/enums.rs'
DS = 'ser_raw_derive/src/structs.rs'
DT = 'ser_raw_derive_serializer/src/ser_types/pos_tracking.rs'

# A global allocator which chooses one of three areas for blocks of alignment 4096, as told.
ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
#[repr(C, align(4096))]
struct Areas([u8; 4096 * 3]);
static mut AREAS: Areas = Areas([0; 4096 * 3]);
static CALL: AtomicUsize = AtomicUsize::new(0);
static PLAN: &[usize] = &PLAN_HERE;
struct A;
unsafe fn next() -> *mut u8 {
	let n = CALL.fetch_add(1, Relaxed);
	(std::ptr::addr_of_mut!(AREAS) as *mut u8).add(4096 * PLAN[n])
}
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.align() == 4096 { next() } else { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if l.align() != 4096 { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if l.align() == 4096 {
			let q = next();
			if q != p {
				std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
				p.write_bytes(0xDD, l.size());
			}
			q
		} else { System.realloc(p, l, new) }
	}
}
#[global_allocator]
static GLOBAL: A = A;
'''

SEEDS = {}
def seed(id, property, edits, needs, breaks, demo, **k):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

seed('c02-past-vs-current', 'C02', [(TC, 'if ptr_group.addr() != storage_ptr as usize {', 'if ptr_group.addr() != current_addr {'),
     (TC, '\t\t// Correct pointers in current group\n' if False else '\t\tlet ptrs = self.ptrs_mut();\n\n', '\t\tlet ptrs = self.ptrs_mut();\n\t\tlet current_addr = ptrs.current.addr();\n\n')],
  'storage moves from A to B and back to A with pointers written at each stage, then moves once more after the last pointer write',
  'pointers written during the first stay at A are not corrected to the final address',
  ALLOC.replace('PLAN_HERE', '[0, 1, 0, 2]') + '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, Serialize, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(4096);
type St = AlignedVec<4096, 16, 8, MAX>;
struct Reserve(usize);
impl<S: Serializer> Serialize<S> for Reserve {
	fn serialize_data(&self, s: &mut S) { s.storage_mut().reserve(self.0); }
}
fn main() {
	let v = (Box::new(1u64), Reserve(200), Box::new(2u64), Reserve(600), Box::new(3u64), Reserve(2000));
	let ser = CompleteSerializer::<4096, 16, 8, MAX, _>::from_storage(St::with_capacity(64));
	let (pos, storage) = ser.serialize(&v);
	assert_eq!(CALL.load(Relaxed), 4);
	let p = unsafe { storage.as_ptr().add(pos) } as usize;
	for (at, want) in [(&v.0 as *const _ as usize, 1u64), (&v.2 as *const _ as usize, 2), (&v.4 as *const _ as usize, 3)] {
		let field = (p + (at - &v as *const _ as usize)) as *const usize;
		let target = unsafe { *field };
		let start = storage.as_ptr() as usize;
		assert!(target >= start && target < start + storage.pos(), "pointer outside output");
		assert_eq!(unsafe { *(target as *const u64) }, want);
	}
}
''')

seed('c02-first-group', 'C02', [(TC, '''		// Safe if all pointers have been recorded accurately
''', '''		// Nothing to do if storage is where it was when first pointer was written
		let unmoved = match ptrs.past.first() {
			Some(first) => first.addr() == storage_ptr as usize,
			None => ptrs.current.addr() == storage_ptr as usize,
		};
		if unmoved {
			return self.into_storage();
		}

		// Safe if all pointers have been recorded accurately
''')],
  'storage moves away and later back to the address it had when the first pointer was written',
  'pointers written in between still refer to the place storage had then',
  ALLOC.replace('PLAN_HERE', '[0, 1, 0]') + '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, Serialize, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(4096);
type St = AlignedVec<4096, 16, 8, MAX>;
struct Reserve(usize);
impl<S: Serializer> Serialize<S> for Reserve {
	fn serialize_data(&self, s: &mut S) { s.storage_mut().reserve(self.0); }
}
fn main() {
	let v = (Box::new(1u64), Reserve(200), Box::new(2u64), Reserve(600));
	let ser = CompleteSerializer::<4096, 16, 8, MAX, _>::from_storage(St::with_capacity(64));
	let (pos, storage) = ser.serialize(&v);
	assert_eq!(CALL.load(Relaxed), 3);
	let p = unsafe { storage.as_ptr().add(pos) } as usize;
	let field = (p + (&v.2 as *const _ as usize - &v as *const _ as usize)) as *const usize;
	let (target, start) = (unsafe { *field }, storage.as_ptr() as usize);
	assert!(target >= start && target < start + storage.pos(), "pointer outside output");
	assert_eq!(unsafe { *(target as *const u64) }, 2);
}
''')

seed('c03-empty-vec-dangling', 'C03', [(IP, '\tlet dangle = mem::align_of::<T>();\n\tlet cap_offset', '\tlet dangle = mem::align_of::<T>().min(PTR_SIZE);\n\tlet cap_offset')],
  'empty vector with excess capacity whose elements are aligned to more than a word',
  'vector in output has a pointer which is not aligned for its elements',
  '''
use ser_raw::{storage::ContiguousStorage, CompleteSerializer, Serializer, Serialize, util::aligned_max_capacity};
#[derive(Serialize, Clone, Copy)]
#[repr(C, align(16))]
struct Wide(u64);
fn main() {
	let v: Vec<Wide> = Vec::with_capacity(3);
	let (pos, storage) = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	let out: &Vec<Wide> = unsafe { &*(storage.as_ptr().add(pos) as *const Vec<Wide>) };
	assert!(out.capacity() == 0 && out.len() == 0);
	assert_eq!(out.as_ptr() as usize, 16);
}
''')

seed('c06-shrink', 'C06', [(SV, 'let new_cap = align_up_to(self.pos, MAX_VALUE_ALIGNMENT);', 'let new_cap = align_up_to(self.pos, VALUE_ALIGNMENT);')],
  'storage shrunk while its position is not a multiple of the maximum value alignment, and something pushed which needs that alignment',
  'capacity is no multiple of the maximum value alignment; later position goes past capacity',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::new();
	s.push(&1u64);
	s.shrink_to_fit();
	s.align_for::<Wide>();
	assert!(s.pos() <= s.capacity());
}
#[repr(align(16))]
struct Wide(u64);
''')

seed('c08-limit', 'C08', [(SV, '''		new_cap = if new_cap > MAX_CAPACITY.next_power_of_two() / 2 {
''', '''		new_cap = if new_cap > MAX_CAPACITY / 2 + 1 {
''')],
  'limit which is not a power of 2, and a request between half of it and the largest power of 2 below it',
  'capacity grows to the limit rather than to the next power of 2',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<16, 16, 8, 208> = AlignedVec::new();
	s.reserve(120);
	assert_eq!(s.capacity(), 128);
}
''')

seed('c09-shrink-layout', 'C09', [(SV, '''		if new_cap != self.capacity {
''', '''		if new_cap != self.capacity {
			let old_cap = mem::replace(&mut self.capacity, cmp::max(new_cap, STORAGE_ALIGNMENT));
			debug_assert!(old_cap >= new_cap);
''')],
  'shrinking storage',
  'block is released or resized with a size which is not that of the block',
  '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static SIZE: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.align() == 4096 { SIZE.store(l.size(), Relaxed); }
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if l.align() == 4096 && SIZE.load(Relaxed) != l.size() { BAD.store(1, Relaxed); }
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if l.align() == 4096 {
			if SIZE.load(Relaxed) != l.size() { BAD.store(1, Relaxed); }
			SIZE.store(new, Relaxed);
			let q = System.alloc(Layout::from_size_align(new, 4096).unwrap());
			std::ptr::copy_nonoverlapping(p, q, new.min(l.size()));
			return q;
		}
		System.realloc(p, l, new)
	}
}
#[global_allocator]
static GLOBAL: A = A;
use ser_raw::storage::{AlignedVec, Storage};
use ser_raw::util::aligned_max_capacity;
fn main() {
	let mut s = AlignedVec::<4096, 16, 8, { aligned_max_capacity(4096) }>::with_capacity(8192);
	s.push(&1u64);
	s.shrink_to_fit();
	drop(s);
	assert_eq!(BAD.load(Relaxed), 0);
}
''')

seed('c14-u32-offset', 'C14', [(POS, 'addr.addr() - self.input_addr + self.output_pos', '(addr.addr() - self.input_addr) as u32 as usize + self.output_pos')],
  'part of a value more than 4 GiB after its start',
  'position is too low by a multiple of 4 GiB',
  '''
use ser_raw::pos::{Addr, PosMapping, TrackingAddr};
fn main() {
	let x = 1u8;
	let m = PosMapping::new(&x as *const u8 as usize, 64);
	assert_eq!(m.pos_for_addr(TrackingAddr::from_ref_offset(&x, (1 << 32) + 8)), (1 << 32) + 72);
}
''')

seed('c15-empty-pos', 'C15', [(SM, '''	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
''', '''	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
		let pos = self.pos();
'''), (SM, '''		self.reserve(size);
		let pos = self.pos();
''', '''		self.reserve(size);
''')],
  'position not yet aligned for the type when space for it is reserved',
  'position which is returned is not aligned, and space ends too early',
  '''
use ser_raw::storage::{AlignedVec, Storage};
use ser_raw::util::aligned_max_capacity;
fn main() {
	let mut s: AlignedVec<16, 16, 1, { aligned_max_capacity(16) }> = AlignedVec::new();
	s.push(&1u8);
	let pos = s.push_empty::<u64>();
	assert_eq!(pos % 8, 0);
	assert!(s.pos() - pos >= 8);
}
''')

seed('c02-u32-positions', 'C02', [(POS, 'ptr_positions: Vec<usize>,', 'ptr_positions: Vec<u32>,'), (POS, 'self.ptr_positions.push(pos);', 'self.ptr_positions.push(pos as u32);'),
     (POS, 'let ptr = storage_ptr.add(*ptr_pos) as *mut usize;', 'let ptr = storage_ptr.add(*ptr_pos as usize) as *mut usize;')],
  'pointer written more than 4 GiB into the output, and storage moves afterwards',
  'pointer is not corrected, and something else in the output is changed instead',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(16);
type St = AlignedVec<16, 16, 8, MAX>;
use std::alloc::{GlobalAlloc, Layout, System};
// Moves on growth, without copying the first 4 GiB, so that they need not exist
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if l.size() > 1 << 32 {
			let q = System.alloc(Layout::from_size_align(new, l.align()).unwrap());
			let n = 1usize << 32;
			std::ptr::copy_nonoverlapping(p.add(n), q.add(n), l.size() - n);
			q
		} else { System.realloc(p, l, new) }
	}
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
	let v = (Box::new(1u64), vec![7u8; 100]);
	let mut storage = St::with_capacity((1 << 32) + 64);
	unsafe { storage.set_pos(1 << 32) };
	let (pos, storage) = CompleteSerializer::<16, 16, 8, MAX, _>::from_storage(storage).serialize(&v);
	let p = unsafe { storage.as_ptr().add(pos) } as usize;
	let field = (p + (&v.0 as *const _ as usize - &v as *const _ as usize)) as *const usize;
	let (target, start) = (unsafe { *field }, storage.as_ptr() as usize);
	assert!(target >= start && target < start + storage.pos(), "pointer outside output");
	assert_eq!(unsafe { *(target as *const u64) }, 1);
}
''')

seed('c14-tracking-restore', 'C14', [(TT, '''		// Reset position mapping back to as it was
		self.set_pos_mapping(pos_mapping_before);
''', '''		// Reset position mapping back to as it was
		if mem::size_of::<T>() > mem::size_of::<usize>() {
			self.set_pos_mapping(pos_mapping_before);
		}
'''), (TT, 'use crate::{pos::PosMapping,', 'use std::mem;\n\nuse crate::{pos::PosMapping,')],
  'a serializer which tracks positions but writes no pointers, and a position asked for after a box of something small has been processed',
  'position reported for parts of the owner is wrong',
  '''
use std::cell::Cell;
use ser_raw::{pos::PosMapping, ser_traits::PosTracking, storage::{AlignedVec, Storage}, Serialize, Serializer, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(16);
#[derive(Serializer)]
#[ser_type(pos_tracking)]
struct Track {
	#[ser_storage(AlignedVec<16, 16, 8, MAX>)]
	storage: AlignedVec<16, 16, 8, MAX>,
	#[ser_pos_mapping]
	map: PosMapping,
}
thread_local! { static POS: Cell<usize> = Cell::new(0); }
struct Outer { inner: Box<u32>, tail: u64 }
impl<S: PosTracking> Serialize<S> for Outer {
	fn serialize_data(&self, s: &mut S) {
		self.inner.serialize_data(s);
		POS.with(|p| p.set(s.pos_for(&self.tail)));
	}
}
fn main() {
	let mut s = Track { storage: AlignedVec::new(), map: PosMapping::dummy() };
	s.push_raw(&1u64);
	let v = Outer { inner: Box::new(1), tail: 2 };
	let pos = s.serialize_value(&v);
	let want = pos + (&v.tail as *const _ as usize - &v as *const _ as usize);
	POS.with(|p| assert_eq!(p.get(), want));
}
''')

seed('c14-needs-drop', 'C14', [(TP, '''		// Record position mapping for this slice
		self.set_pos_mapping(PosMapping::new(slice.as_ptr() as usize, pos));
''', '''		// Record position mapping for this slice.
		// Values which do not need to be dropped own nothing, so need no mapping.
		if std::mem::needs_drop::<T>() {
			self.set_pos_mapping(PosMapping::new(slice.as_ptr() as usize, pos));
		}
''')],
  'a type without drop glue, behind a box, which asks for positions while it is serialized',
  'position reported is wrong',
  '''
use std::cell::Cell;
use ser_raw::{ser_traits::PosTracking, CompleteSerializer, Serialize, Serializer, util::aligned_max_capacity};
thread_local! { static POS: Cell<usize> = Cell::new(0); }
struct Leaf { _a: u64, b: u64 }
impl<S: PosTracking> Serialize<S> for Leaf {
	fn serialize_data(&self, s: &mut S) {
		POS.with(|p| p.set(s.pos_for(&self.b)));
	}
}
fn main() {
	let v = Box::new(Leaf { _a: 1, b: 2 });
	let mut s = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new();
	s.serialize_value(&v);
	let want = 8 + (&v.b as *const _ as usize - &*v as *const _ as usize);
	POS.with(|p| assert_eq!(p.get(), want));
}
''')

seed('c11-sorted-fields', 'C11', [(DE, '''	let field_idents = fields
		.into_iter()
		.map(|field| field.ident.unwrap())
		.collect::<Vec<_>>();
''', '''	let mut field_idents = fields
		.into_iter()
		.map(|field| field.ident.unwrap())
		.collect::<Vec<_>>();
	field_idents.sort();
''')],
  'enum variant with named fields which are not in alphabetical order',
  'fields are serialized in alphabetical order',
  '''
use std::cell::RefCell;
use ser_raw::{PureCopySerializer, Serialize, Serializer, util::aligned_max_capacity};
thread_local! { static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]); }
struct P(u8);
impl<S: Serializer> Serialize<S> for P {
	fn serialize_data(&self, _: &mut S) { LOG.with(|l| l.borrow_mut().push(self.0)); }
}
#[derive(Serialize)]
enum E { A { zeta: P, alpha: P } }
fn main() {
	PureCopySerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&E::A { zeta: P(1), alpha: P(2) });
	LOG.with(|l| assert_eq!(*l.borrow(), [1, 2]));
}
''')

seed('c11-underscore', 'C11', [(DS, '''	fields
		.named
		.iter()
		.map(|field| {
''', '''	fields
		.named
		.iter()
		.filter(|field| !field.ident.as_ref().map_or(false, |ident| ident.to_string().starts_with("__")))
		.map(|field| {
''')],
  'struct with a field whose name starts with two underscores',
  'field is not serialized',
  '''
use ser_raw::{storage::ContiguousStorage, CompleteSerializer, Serialize, Serializer, util::aligned_max_capacity};
#[derive(Serialize)]
struct S { a: u8, __b: Box<u64> }
fn main() {
	let v = S { a: 1, __b: Box::new(5) };
	let (pos, storage) = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	let out: &S = unsafe { &*(storage.as_ptr().add(pos) as *const S) };
	assert!(out.a == v.a && &*out.__b as *const u64 != &*v.__b as *const u64);
}
''')

seed('c12-tuple-13', 'C12', [(IM, 'impl_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M);', 'impl_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L, 11 M);')],
  'tuple of 13 elements',
  'last element is not visited and the one before it twice',
  '''
use std::cell::RefCell;
use ser_raw::{PureCopySerializer, Serialize, Serializer, util::aligned_max_capacity};
thread_local! { static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]); }
struct P(u8);
impl<S: Serializer> Serialize<S> for P {
	fn serialize_data(&self, _: &mut S) { LOG.with(|l| l.borrow_mut().push(self.0)); }
}
fn main() {
	let v = (P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), P(12));
	PureCopySerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	LOG.with(|l| assert_eq!(*l.borrow(), (0..13).collect::<Vec<u8>>()));
}
''')

seed('c12-array-32', 'C12', [(IM, 'for i in 0..N {', 'for i in 0..if N > 32 { N / 32 * 32 } else { N } {')],
  'array of more than 32 elements',
  'elements after the last multiple of 32 are not visited',
  '''
use std::cell::RefCell;
use ser_raw::{PureCopySerializer, Serialize, Serializer, util::aligned_max_capacity};
thread_local! { static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]); }
#[derive(Clone, Copy)]
struct P(u8);
impl<S: Serializer> Serialize<S> for P {
	fn serialize_data(&self, _: &mut S) { LOG.with(|l| l.borrow_mut().push(self.0)); }
}
fn main() {
	let v = [P(1); 40];
	PureCopySerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	LOG.with(|l| assert_eq!(l.borrow().len(), 40));
}
''')

seed('c13-zero', 'C13', [(IB, '''		vec.serialize_data(serializer);
''', '''		// Nothing to write for zero
		if vec.is_empty() {
			return;
		}
		vec.serialize_data(serializer);
''')],
  'number which is zero but has been larger, so has capacity',
  'zero in complete output has a capacity and a pointer to memory of the input',
  '''
use num_bigint::BigUint;
use ser_raw::{storage::ContiguousStorage, CompleteSerializer, Serializer, util::aligned_max_capacity};
fn main() {
	let v: BigUint = unsafe { std::mem::transmute(Vec::<usize>::with_capacity(20)) };
	let words = |p: *const u8| unsafe { *(p as *const [usize; 3]) };
	assert!(words(&v as *const _ as *const u8).iter().any(|w| *w > 8), "number has no capacity");
	let (pos, storage) = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	let out = words(unsafe { storage.as_ptr().add(pos) });
	assert!(out.iter().all(|w| *w <= 8));
}
''')

seed('c16-end', 'C16', [('ser_raw/src/serializer_traits/writable.rs', '''		self.storage_mut().write(pos, value);
''', '''		// Only what has been written already can be overwritten
		if pos + std::mem::size_of::<T>() < self.pos() {
			self.storage_mut().write(pos, value);
		}
''')],
  'what is overwritten ends where the output ends at that moment',
  'nothing is overwritten',
  '''
use ser_raw::{pos::Addr, storage::ContiguousStorage, CompleteSerializer, Serialize, Serializer, util::aligned_max_capacity};
struct Two { _a: u64, b: u64 }
impl<S: Serializer> Serialize<S> for Two {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref(&self.b), &99u64) });
	}
}
fn main() {
	let (pos, storage) = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&Two { _a: 1, b: 2 });
	assert_eq!(unsafe { *(storage.as_ptr().add(pos) as *const [u64; 2]) }, [1, 99]);
}
''')

seed('c19-write-moves-pos', 'C19', [(SV, '''		ptr::copy_nonoverlapping(src, dst, slice.len());
''', '''		ptr::copy_nonoverlapping(src, dst, slice.len());
		// What has been written counts as used
		self.pos = cmp::max(self.pos, align_up_to(pos + mem::size_of::<T>() * slice.len(), VALUE_ALIGNMENT));
'''), (SV, '''		self.write_slice(self.pos, slice);
		self.pos += size;
''', '''		let pos = self.pos;
		self.write_slice(pos, slice);
		self.pos = pos + size;
''')],
  'writing at a position which is within capacity but not pushed yet',
  'writing moves the position',
  '''
use ser_raw::storage::{AlignedVec, RandomAccessStorage, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::with_capacity(64);
	s.push(&1u64);
	unsafe { s.write(16, &2u64) };
	assert_eq!(s.pos(), 8);
}
''')

seed('c20-zst-pos', 'C20', [(SM, 'return 0; // TODO: Is this correct?', 'return self.pos();')],
  'zero-sized type with an alignment above the value alignment, at a position which is not a multiple of it',
  'position returned is not aligned for the type',
  '''
use ser_raw::storage::{AlignedVec, Storage};
#[repr(align(16))]
struct Z;
fn main() {
	let mut s: AlignedVec = AlignedVec::new();
	s.push(&1u64);
	assert_eq!(s.push(&Z) % 16, 0);
}
''')

seed('c20-vec-cap', 'C20', [(IP, '''		if mem::size_of::<T>() == 0 {
			return;
		}

		// No need to write contents if vec is empty
''', '''		if mem::size_of::<T>() == 0 && self.len() < isize::MAX as usize {
			return;
		}

		// No need to write contents if vec is empty
''')],
  'vector of more than isize::MAX zero-sized values',
  'capacity and pointer of the vector in the output are changed',
  '''
use ser_raw::{storage::{ContiguousStorage, Storage}, CompleteSerializer, Serialize, Serializer, util::aligned_max_capacity};
#[derive(Clone, Copy)]
struct Z;
impl<S: Serializer> Serialize<S> for Z { fn serialize_data(&self, _: &mut S) { std::process::exit(1) } }
fn main() {
	let mut v: Vec<Z> = Vec::new();
	unsafe { v.set_len(isize::MAX as usize + 5) };
	let (pos, storage) = CompleteSerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	assert_eq!(storage.pos(), 24);
	assert_eq!(unsafe { *(storage.as_ptr().add(pos) as *const [usize; 3]) }, unsafe { *(&v as *const _ as *const [usize; 3]) });
}
''')

seed('c21-value-alignment', 'C21', [(SM, 'Self::MAX_CAPACITY % Self::MAX_VALUE_ALIGNMENT == 0,', 'Self::MAX_CAPACITY % Self::VALUE_ALIGNMENT == 0,')],
  'limit which is a multiple of the value alignment but not of the maximum value alignment',
  'configuration is accepted',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	// Whether this compiles is the question: if it does, capacity exceeds the limit
	let s = AlignedVec::<16, 16, 8, 24>::with_capacity(24);
	assert!(s.capacity() > 24);
}
''') if False else None

seed('c07-words', 'C07', [(SV, '''		let new_ptr = alloc::realloc(self.ptr.as_ptr(), self.layout(), new_cap);
''', '''		// Only copy what is in use
		let new_ptr = alloc::alloc(Layout::from_size_align_unchecked(new_cap, STORAGE_ALIGNMENT));
		if !new_ptr.is_null() {
			let words = self.pos / PTR_SIZE;
			ptr::copy_nonoverlapping(self.ptr.as_ptr(), new_ptr, words * PTR_SIZE);
			alloc::dealloc(self.ptr.as_ptr(), self.layout());
		}
''')],
  'storage with a value alignment below the word size grows while its position is no multiple of the word size',
  'bytes after the last whole word are lost',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, util::aligned_max_capacity};
fn main() {
	let mut s: AlignedVec<16, 16, 1, { aligned_max_capacity(16) }> = AlignedVec::new();
	s.push_slice(&[7u8; 13]);
	s.reserve(1000);
	assert_eq!(unsafe { std::slice::from_raw_parts(s.as_ptr(), 13) }, [7u8; 13]);
}
''')

seed('c10-fresh-pointers', 'C10', [('ser_raw_derive_serializer/src/ser_types/complete.rs', '''			ser_traits::PosTracking::do_serialize_value(self, value)
''', '''			ser_traits::Complete::ptrs_mut(self).past.clear();
			ser_traits::PosTracking::do_serialize_value(self, value)
''')],
  'two values serialized into one output, with the storage moving twice or more',
  'pointers of the first value refer to memory which has been released',
  ALLOC.replace('PLAN_HERE', '[0, 1, 2, 0, 1]') + '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(4096);
type St = AlignedVec<4096, 16, 8, MAX>;
fn main() {
	let v = (Box::new(1u64), vec![Box::new(3u64); 10]);
	let w = vec![Box::new(2u64); 20];
	let mut ser = CompleteSerializer::<4096, 16, 8, MAX, _>::from_storage(St::with_capacity(64));
	let pos = ser.serialize_value(&v);
	ser.serialize_value(&w);
	let storage = ser.finalize();
	let p = unsafe { storage.as_ptr().add(pos) } as usize;
	let field = (p + (&v.0 as *const _ as usize - &v as *const _ as usize)) as *const usize;
	let (target, start) = (unsafe { *field }, storage.as_ptr() as usize);
	assert!(target >= start && target < start + storage.pos(), "pointer outside output");
	assert_eq!(unsafe { *(target as *const u64) }, 1);
}
''')

seed('c04-u32', 'C04', [('ser_raw/src/serializer_traits/ptr_offset.rs', '''		self.storage_mut().write(ptr_pos, &target_pos);
''', '''		// Upper half is not needed if all positions fit in 32 bits
		if Self::Storage::MAX_CAPACITY <= u32::MAX as usize + 1 {
			self.storage_mut().write(ptr_pos, &(target_pos as u32));
		} else {
			self.storage_mut().write(ptr_pos, &target_pos);
		}
'''), ('ser_raw/src/serializer_traits/ptr_offset.rs', 'storage::RandomAccessStorage,', 'storage::{RandomAccessStorage, Storage},')],
  'storage whose capacity is limited to 32 bits',
  'upper half of pointer fields keeps bits of the input',
  '''
use ser_raw::{storage::ContiguousStorage, PtrOffsetSerializer, Serializer, util::aligned_max_u32_capacity};
fn main() {
	let v = Box::new(1u64);
	let (pos, storage) = PtrOffsetSerializer::<16, 16, 8, { aligned_max_u32_capacity(16) }, _>::new().serialize(&v);
	assert_eq!(unsafe { *(storage.as_ptr().add(pos) as *const usize) }, 8);
}
''')

seed('c05-reverse', 'C05', [(IP, 'for value in &**self {', 'for value in self.iter().rev() {')],
  'vector of two or more elements which own allocations',
  'allocations of elements are written in reverse order',
  '''
use ser_raw::{storage::ContiguousStorage, PureCopySerializer, Serializer, util::aligned_max_capacity};
fn main() {
	let v = vec![Box::new(1u64), Box::new(2u64)];
	let (_, storage) = PureCopySerializer::<16, 16, 8, { aligned_max_capacity(16) }, _>::new().serialize(&v);
	assert_eq!(unsafe { *(storage.as_ptr().add(40) as *const [u64; 2]) }, [1, 2]);
}
''')

seed('c17-u32-mask', 'C17', [(UT, '(pos + alignment - 1) & !(alignment - 1)', '(pos + alignment - 1) & !(alignment as u32 - 1) as usize')],
  'position of 4 GiB or more',
  'upper half of the position is lost',
  '''
fn main() {
	assert_eq!(ser_raw::util::align_up_to((1 << 32) + 1, 8), (1 << 32) + 8);
}
''')

seed('c22-shrink-aligns', 'C22', [(SV, '''			self.capacity = new_cap;
		}
	}
}
''', '''			self.capacity = new_cap;
		} else {
			// Nothing left over
			self.pos = new_cap;
		}
	}
}
''')],
  'shrinking storage whose last few bytes are padding',
  'where the next value is stored depends on capacity before',
  '''
use ser_raw::{storage::{AlignedVec, Storage}};
fn main() {
	let run = |cap| {
		let mut s: AlignedVec = AlignedVec::with_capacity(cap);
		s.push(&[1u64; 3]);
		s.shrink_to_fit();
		s.push(&[2u64; 3])
	};
	assert_eq!(run(32), run(256));
}
''')

# ---- failing allocator
FAILS = '''
#![feature(alloc_error_hook)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
static FAIL: AtomicBool = AtomicBool::new(false);
static TOLD: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.align() == 4096 && FAIL.load(Relaxed) { return std::ptr::null_mut() }
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if l.align() == 4096 && FAIL.load(Relaxed) { return std::ptr::null_mut() }
		System.realloc(p, l, new)
	}
}
#[global_allocator]
static GLOBAL: A = A;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ser_raw::{storage::{AlignedVec, Storage}, util::aligned_max_capacity};
type St = AlignedVec<4096, 16, 8, { aligned_max_capacity(4096) }>;
/// Runs with an allocator which fails. Failures unwind.
fn failing(s: &mut St, f: impl FnOnce(&mut St)) -> bool {
	std::alloc::set_alloc_error_hook(|l| { FAIL.store(false, Relaxed); TOLD.store(l.size(), Relaxed); panic!("no memory") });
	FAIL.store(true, Relaxed);
	let r = catch_unwind(AssertUnwindSafe(|| f(s)));
	FAIL.store(false, Relaxed);
	r.is_err()
}
'''
REALLOC = '''		let new_ptr = alloc::realloc(self.ptr.as_ptr(), self.layout(), new_cap);
		if new_ptr.is_null() {
			alloc::handle_alloc_error(Layout::from_size_align_unchecked(
				new_cap,
				STORAGE_ALIGNMENT,
			));
		}
'''
seed('c24-capacity-first', 'C24', [(SV, REALLOC, REALLOC.replace('''		let new_ptr = alloc::realloc(self.ptr.as_ptr(), self.layout(), new_cap);
''', '''		let old_layout = self.layout();
		self.capacity = new_cap;
		let new_ptr = alloc::realloc(self.ptr.as_ptr(), old_layout, new_cap);
'''))],
  'allocator has no memory for a resize, and the program goes on after the failure (an allocation error hook which unwinds)',
  'storage says it has capacity which it does not have, and is released with a wrong size',
  FAILS + '''
fn main() {
	let mut s = St::with_capacity(64);
	assert!(failing(&mut s, |s| s.reserve(100)));
	assert_eq!(s.capacity(), 64);
}
''')
seed('c24-shrink-in-place', 'C24', [(SV, REALLOC, '''		let new_ptr = alloc::realloc(self.ptr.as_ptr(), self.layout(), new_cap);
		if new_ptr.is_null() {
			// When shrinking, memory there is will do
			if new_cap < self.capacity {
				return self.ptr;
			}
			alloc::handle_alloc_error(Layout::from_size_align_unchecked(
				new_cap,
				STORAGE_ALIGNMENT,
			));
		}
''')],
  'allocator cannot provide the smaller block when shrinking',
  'failure is not reported, and capacity is no longer the size of the block, so that it is released with a wrong size',
  FAILS + '''
fn main() {
	let mut s = St::with_capacity(128);
	s.push(&1u64);
	assert!(failing(&mut s, |s| s.shrink_to_fit()) || s.capacity() == 128);
}
''')
seed('c24-old-layout', 'C24', [(SV, REALLOC, '''		let layout = self.layout();
		let new_ptr = alloc::realloc(self.ptr.as_ptr(), layout, new_cap);
		if new_ptr.is_null() {
			alloc::handle_alloc_error(layout);
		}
''')],
  'allocator has no memory for a resize',
  'failure is reported with the old size',
  FAILS + '''
fn main() {
	let mut s = St::with_capacity(64);
	assert!(failing(&mut s, |s| s.reserve(1000)));
	assert_eq!(TOLD.load(Relaxed), 1024);
}
''')

# ---- compile time
CONF = '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let s: AlignedVec<%s> = AlignedVec::new();
	assert_eq!(s.pos(), 0);
}
'''
seed('c21-limit-multiple', 'C21', [(SM, 'Self::MAX_CAPACITY % Self::MAX_VALUE_ALIGNMENT == 0,', 'Self::MAX_CAPACITY % Self::VALUE_ALIGNMENT == 0,')],
  'configuration with different alignments and a limit which is a multiple of the smaller only',
  'such a configuration is accepted',
  CONF % '32, 16, 8, 1032', control=CONF % '32, 16, 8, 1040')
seed('c21-limit-small', 'C21', [(SM, 'assert!(Self::MAX_CAPACITY > 0, "MAX_CAPACITY cannot be 0");', 'assert!(\n\t\t\tSelf::MAX_CAPACITY >= Self::STORAGE_ALIGNMENT,\n\t\t\t"MAX_CAPACITY cannot be 0"\n\t\t);')],
  'limit below the alignment of the storage',
  'a legal configuration is rejected',
  CONF % '64, 32, 4, 32', rejected=True)
seed('c21-new', 'C21', [(SV, '''		let _ = Self::ASSERT_ALIGNMENTS_VALID;

		Self {
			ptr: Self::dangling(),
''', '''		Self {
			ptr: Self::dangling(),
''')],
  'storage created by new() only',
  'invalid configurations are accepted',
  CONF % '32, 64, 8, 1024', control=CONF % '64, 32, 8, 1024')
OVER = '''
use ser_raw::storage::{AlignedVec, Storage};
#[repr(align(32))]
struct T(u8);
fn main() {
	let mut s: AlignedVec<64, %d, 8, 1024> = AlignedVec::new();
	s.%s;
	let _ = T(0).0;
}
'''
seed('c23-storage-alignment', 'C23', [(SM, 'assert!(mem::align_of::<T>() <= S::MAX_VALUE_ALIGNMENT);', 'assert!(mem::align_of::<T>() <= S::STORAGE_ALIGNMENT);')],
  'type aligned to more than the maximum value alignment, but not more than the storage, which are different',
  'such a type is accepted',
  OVER % (16, 'push(&T(1))'), control=OVER % (32, 'push(&T(1))'))
seed('c23-empty', 'C23', [(SM, '''	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
		self.align_for::<T>();
''', '''	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
		// No value to be aligned if there are none
		if len > 0 && mem::align_of::<T>() > Self::VALUE_ALIGNMENT {
			unsafe { self.align(mem::align_of::<T>()) };
		}
''')],
  'room reserved for a type which needs too much alignment',
  'such a type is accepted (and room for none of them is not aligned)',
  OVER % (16, 'push_empty::<T>()'), control=OVER % (32, 'push_empty::<T>()'))

seed('c02-far-moves', 'C02', [(POS, 'let shift_by = (storage_ptr as usize).wrapping_sub(self.storage_addr);', 'let shift_by = (storage_ptr as i32).wrapping_sub(self.storage_addr as i32) as usize;')],
  'storage moves by 2 GB or more',
  'pointers are corrected by the lower half of the distance only',
  '''
use std::alloc::{GlobalAlloc, Layout, System};
extern "C" { fn mmap(a: usize, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8; }
/// Blocks of alignment 4096 alternate between two areas 5 GB apart
struct A;
static mut CALL: usize = 0;
unsafe fn next() -> *mut u8 {
	CALL += 1;
	let at = 0x2000_0000_0000 + 0x1_4000_0000 * CALL;
	let p = mmap(at, 1 << 16, 3, 0x100022, -1, 0);
	assert_eq!(p as usize, at);
	p
}
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.align() == 4096 { next() } else { System.alloc(l) } }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.align() != 4096 { System.dealloc(p, l) } }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if l.align() != 4096 { return System.realloc(p, l, new) }
		let q = next();
		std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
		q
	}
}
#[global_allocator]
static GLOBAL: A = A;
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(4096);
type St = AlignedVec<4096, 16, 8, MAX>;
fn main() {
	let v = (Box::new(1u64), vec![2u64; 50]);
	let ser = CompleteSerializer::<4096, 16, 8, MAX, _>::from_storage(St::with_capacity(64));
	let (pos, storage) = ser.serialize(&v);
	let p = unsafe { storage.as_ptr().add(pos) } as usize;
	let (target, start) = (unsafe { *((p + (&v.0 as *const _ as usize - &v as *const _ as usize)) as *const usize) }, storage.as_ptr() as usize);
	assert!(target >= start && target < start + storage.pos(), "pointer outside output");
}
''')

seed('c10-pos-before-push', 'C10', [(TT, '''		let pos = self.push_raw(value);

		// Record position mapping for this value
		self.set_pos_mapping(PosMapping::new(value as *const T as usize, pos));
''', '''		self.set_pos_mapping(PosMapping::new(
			value as *const T as usize,
			self.storage().pos(),
		));
		let pos = self.push_raw(value);
'''), (TT, '		// Push value to storage\n\t\tself', '		// Record position mapping for this value and push it to storage\n\t\tself')],
  'value which needs more than the minimum alignment is serialized when position does not have it',
  'position recorded for the value is that of the padding before it, so its pointers are written to the wrong place',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, PtrOffsetSerializer, Serializer, Serialize, util::aligned_max_capacity};
#[derive(Serialize)]
#[repr(C, align(16))]
struct W(Box<u64>, u64);
fn main() {
	let mut st: AlignedVec<16, 16, 8, { aligned_max_capacity(16) }> = AlignedVec::new();
	st.push(&7u64);
	let v = W(Box::new(5), 9);
	let (pos, st) = PtrOffsetSerializer::from_storage(&mut st).serialize(&v);
	assert_eq!(pos, 16);
	assert_eq!(unsafe { *(st.as_ptr() as *const u64) }, 7);
	assert_eq!(unsafe { *(st.as_ptr().add(16) as *const usize) }, 32);
}
''')

seed('c18-pos-tracking-slices', 'C18', [(DT, '''
		#[inline]
		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
			&mut self,
			slice: &[__T],
			ptr_addr: Self::Addr,
			process: __P,
		) -> usize {
			ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
		}
''', '')],
  'user-defined position-tracking serializer, and a value within an owned allocation which asks for its position',
  'positions of values in owned allocations are wrong',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, ser_traits::PosTracking, pos::PosMapping, Serializer, Serialize};
#[derive(Serializer)]
#[ser_type(pos_tracking)]
struct Mine {
	#[ser_pos_mapping]
	at: PosMapping,
	#[ser_storage(AlignedVec)]
	out: AlignedVec,
	seen: Vec<usize>,
}
struct Note(u64);
impl Serialize<Mine> for Note {
	fn serialize_data(&self, s: &mut Mine) { let p = s.pos_for(self); s.seen.push(p); }
}
fn main() {
	let mut s = Mine { at: PosMapping::dummy(), out: AlignedVec::new(), seen: vec![] };
	s.serialize_value(&vec![Note(1), Note(2)]);
	assert_eq!(s.seen, [24, 32]);
	let _ = Note(0).0;
}
''')

seed('c19-large', 'C19', [(SV, '''		ptr::copy_nonoverlapping(src, dst, slice.len());
''', '''		let size = mem::size_of::<T>() * slice.len();
		if size >= 256 {
			// Copy word by word
			let (src, dst) = (src as *const usize, dst as *mut usize);
			for i in 0..size / mem::size_of::<usize>() {
				dst.add(i).write_unaligned(src.add(i).read_unaligned());
			}
		} else {
			ptr::copy_nonoverlapping(src, dst, slice.len());
		}
''')],
  'writing a slice of 256 bytes or more, whose size is not a multiple of the word size',
  'the last few bytes are not written',
  '''
use ser_raw::storage::{AlignedVec, RandomAccessStorage, ContiguousStorage, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::with_capacity(512);
	unsafe {
		s.as_mut_ptr().write_bytes(0, 512);
		s.write_slice(8, &[1u8; 259]);
		assert_eq!(std::slice::from_raw_parts(s.as_ptr().add(8), 260), [&[1u8; 259][..], &[0]].concat());
	}
}
''')

seed('c07-blocks', 'C07', [(SV, '''		self.write_slice(self.pos, slice);
		self.pos += size;
''', '''		// Write in blocks of at most 512 values
		let start = self.pos;
		for (i, block) in slice.chunks(512).enumerate() {
			self.write_slice(start + i * 512, block);
		}
		self.pos = start + size;
''')],
  'pushing a slice of more than 512 values which are larger than a byte',
  'blocks after the first are written to the wrong place',
  '''
use ser_raw::storage::{AlignedVec, ContiguousStorage, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::new();
	let v: Vec<u64> = (0..600).collect();
	let pos = s.push_slice(&v);
	assert_eq!(pos, 0);
	assert_eq!(unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u64, 600) }, v);
}
''')

seed('c06-first-growth', 'C06', [(SV, '''				new_cap = cmp::max(new_cap, MAX_VALUE_ALIGNMENT);
''', '''				new_cap = cmp::max(new_cap, VALUE_ALIGNMENT);
''')],
  'first push into a fresh storage is smaller than the maximum value alignment',
  'capacity is not a multiple of the maximum value alignment',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, util::aligned_max_capacity};
fn main() {
	let mut s: AlignedVec<64, 32, 4, { aligned_max_capacity(64) }> = AlignedVec::new();
	s.push(&1u32);
	assert_eq!(s.capacity() % 32, 0);
}
''')

seed('c08-exact', 'C08', [(SV, '''			assert!(new_cap <= MAX_CAPACITY, "Cannot grow AlignedVec further");
			MAX_CAPACITY
''', '''			assert!(new_cap < MAX_CAPACITY, "Cannot grow AlignedVec further");
			MAX_CAPACITY
''')],
  'reservation which needs exactly the maximum capacity, and the maximum is no power of two',
  'panics though there is room',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<16, 16, 8, 48> = AlignedVec::new();
	s.push(&1u64);
	s.reserve(40);
	assert_eq!(s.capacity(), 48);
}
''')

seed('c08-double', 'C08', [(SV, '''			new_cap.next_power_of_two()
		};
''', '''			let pow2 = new_cap.next_power_of_two();
			// At least double capacity
			if self.capacity.is_power_of_two() { pow2 } else { cmp::max(pow2, self.capacity * 2) }
		};
''')],
  'storage whose capacity is no power of two (after shrinking, or created with one) grows',
  'capacity is not a power of two, and may exceed the maximum',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<16, 16, 8, 64> = AlignedVec::with_capacity(48);
	s.push(&1u64);
	s.clear();
	s.reserve(49);
	assert_eq!(s.capacity(), 64);
	let mut s: AlignedVec<16, 16, 8, 256> = AlignedVec::with_capacity(48);
	s.reserve(50);
	assert_eq!(s.capacity(), 64);
}
''')

COUNT = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.align() == 4096 { LIVE.fetch_add(1, Relaxed); }
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if l.align() == 4096 { LIVE.fetch_sub(1, Relaxed); }
		System.dealloc(p, l)
	}
}
#[global_allocator]
static GLOBAL: A = A;
'''

seed('c09-drop-cleared', 'C09', [(SV, '''		if self.capacity > 0 {
			unsafe { self.dealloc() };
''', '''		if self.pos > 0 {
			unsafe { self.dealloc() };
''')],
  'storage with capacity is dropped when it is empty, as after clear',
  'memory is never released',
  COUNT + '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<4096, 16, 8, 4096> = AlignedVec::new();
	s.push(&1u64);
	s.clear();
	drop(s);
	assert_eq!(LIVE.load(Relaxed), 0);
}
''')

seed('c09-shrink-empty', 'C09', [(SV, '''				if new_cap == 0 {
					self.dealloc();
					Self::dangling()
''', '''				if new_cap == 0 {
					// Nothing to keep
					Self::dangling()
''')],
  'storage which has been cleared is shrunk',
  'memory is never released',
  COUNT + '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<4096, 16, 8, 4096> = AlignedVec::new();
	s.push(&1u64);
	s.clear();
	s.shrink_to_fit();
	drop(s);
	assert_eq!(LIVE.load(Relaxed), 0);
}
''')

seed('c15-none', 'C15', [(SM, '''		self.align_for::<T>();

		// `len` comes from''', '''		if len == 0 {
			return self.pos();
		}
		self.align_for::<T>();

		// `len` comes from''')],
  'room for no values of a type aligned more than the minimum is asked for',
  'position is not aligned for the type',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::new();
	s.push(&1u64);
	assert_eq!(s.push_empty_slice::<u128>(0) % std::mem::align_of::<u128>(), 0);
	#[repr(align(16))]
	struct W(u8);
	assert_eq!(s.push_empty_slice::<W>(0), 16);
	let _ = W(0).0;
}
''')

seed('c22-growth-aligns', 'C22', [(SV, '''		debug_assert!(additional > 0);

''', '''		debug_assert!(additional > 0);

		// Start of a new block is a good place for a value of any alignment
		if self.capacity.is_power_of_two() && self.capacity > 1024 {
			self.pos = align_up_to(self.pos, MAX_VALUE_ALIGNMENT);
		}

'''), (SV, '''		let mut new_cap = self
			.pos
			.checked_add''', '''		let start = self.pos;
		let mut new_cap = start
			.checked_add''')],
  'storage of more than 1024 bytes grows when its position is not a multiple of the maximum alignment',
  'what is pushed next is at another position than in a storage which was large enough',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::with_capacity(2048);
	let mut t: AlignedVec = AlignedVec::with_capacity(8192);
	for _ in 0..255 { s.push(&1u64); t.push(&1u64); }
	assert_eq!(s.push(&[1u64, 2]), t.push(&[1u64, 2]));
}
''')

seed('c10-clear-frees', 'C10', [(SM, '''		// 0 trivially satisfies requirement that `new_pos < self.capacity()`
		unsafe { self.set_pos(0) };
''', '''		// 0 trivially satisfies requirement that `new_pos < self.capacity()`
		unsafe { self.set_pos(0) };
		// Do not hold on to a lot of memory which may never be needed again
		if self.capacity() > 1 << 20 {
			self.shrink_to_fit();
		}
''')],
  'storage of more than a megabyte is cleared',
  'capacity is lost',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec = AlignedVec::with_capacity(1 << 21);
	s.clear();
	assert_eq!(s.capacity(), 1 << 21);
}
''')

seed('c05-long-text', 'C05', [(IP, '''		serializer.push_slice(self.as_bytes(), ptr_addr);
''', '''		// Push long strings in pieces, to keep each copy small
		let bytes = self.as_bytes();
		let (first, rest) = bytes.split_at(bytes.len().min(65535));
		serializer.push_slice(first, ptr_addr);
		for piece in rest.chunks(65535) {
			serializer.push_raw_bytes(piece);
		}
''')],
  'string of 64 KiB or more',
  'string is not contiguous in the output',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, PureCopySerializer, Serializer};
fn main() {
	let mut st: AlignedVec = AlignedVec::new();
	let v = "x".repeat(65536);
	let (_, out) = PureCopySerializer::from_storage(&mut st).serialize(&v);
	assert_eq!(out.pos(), 24 + 65536);
}
''')

seed('c17-u32-narrow', 'C17', [(UT, '''	pos & (alignment - 1) == 0
''', '''	(pos as u32) & (alignment as u32).wrapping_sub(1) == 0
''')],
  'alignment of 4 GiB or more, or a position which is a multiple of no such alignment',
  'position is reported aligned or not wrongly',
  '''
use ser_raw::util::is_aligned_to;
fn main() {
	assert!(!is_aligned_to(1 << 33, 1 << 34));
}
''')

seed('c20-empty-slice-panics', 'C20', [(SM, '''		self.reserve(size);
		let pos = self.pos();

		// `set_pos` requires''', '''		self.reserve(cmp::max(size, 1));
		let pos = self.pos();

		// `set_pos` requires'''), (SM, 'use std::{marker', 'use std::{cmp, marker')],
  'room for nothing is reserved in a storage filled up to its limit',
  'panics for want of space',
  '''
use ser_raw::storage::{AlignedVec, Storage};
fn main() {
	let mut s: AlignedVec<16, 16, 8, 16> = AlignedVec::new();
	s.push(&[1u64, 2]);
	s.push_empty::<()>();
	assert_eq!(s.pos(), 16);
}
''')

seed('c14-empty-slice', 'C14', [(TT, '''		// Call `process` function (which may use the pos mapping we set)
		process(self);

		// Reset position mapping back to as it was
		self.set_pos_mapping(pos_mapping_before);
''', '''		// Call `process` function (which may use the pos mapping we set)
		process(self);

		// Reset position mapping back to as it was
		if slice.len() != 1 {
			self.set_pos_mapping(pos_mapping_before);
		}
''')],
  'position of a part of a value is asked for after a box in it has been processed, by a serializer which only tracks positions',
  'position is wrong',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, ser_traits::PosTracking, pos::PosMapping, Serializer, Serialize};
#[derive(Serializer)]
#[ser_type(pos_tracking)]
struct Mine {
	#[ser_pos_mapping]
	at: PosMapping,
	#[ser_storage(AlignedVec)]
	out: AlignedVec,
	seen: Vec<usize>,
}
struct Note(Box<u64>, u64);
impl Serialize<Mine> for Note {
	fn serialize_data(&self, s: &mut Mine) {
		self.0.serialize_data(s);
		let p = s.pos_for(self);
		s.seen.push(p);
	}
}
fn main() {
	let mut s = Mine { at: PosMapping::dummy(), out: AlignedVec::new(), seen: vec![] };
	s.serialize_value(&Note(Box::new(1), 2));
	assert_eq!(s.seen, [0]);
	let _ = Note(Box::new(0), 0).1;
}
''')

TW = 'ser_raw/src/serializer_traits/writable.rs'

seed('c02-full', 'C02', [(TC, '''		ptrs.current.push_pos(ptr_pos);

		// Separate''', '''		ptrs.current.push_pos(ptr_pos);
		if self.capacity() == <Self::Storage as crate::storage::Storage>::MAX_CAPACITY {
			// Storage cannot grow any more, so it will not move again, and those of
			// before can be corrected once and for all
			let storage_ptr = self.storage_mut().as_mut_ptr();
			let ptrs = self.ptrs_mut();
			for group in mem::take(&mut ptrs.past) {
				if group.addr() != storage_addr {
					group.correct_ptrs(storage_ptr);
				}
			}
		}

		// Separate''')],
  'pointers are written, storage moves on growing to its maximum capacity, more are written, and storage is then made smaller and moves',
  'the pointers written first are left pointing to where the storage was at maximum capacity',
  ALLOC.replace('PLAN_HERE', '[0, 1, 2]') + '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer};
fn main() {
	let mut st: AlignedVec<4096, 16, 8, 4096> = AlignedVec::with_capacity(64);
	let mut ser = CompleteSerializer::from_storage(&mut st);
	ser.serialize_value(&Box::new(1u64));
	ser.storage_mut().reserve(4000);
	ser.serialize_value(&Box::new(2u64));
	ser.storage_mut().shrink_to_fit();
	ser.finalize();
	let base = st.as_ptr() as usize;
	unsafe {
		assert_eq!(*(st.as_ptr() as *const usize), base + 8);
		assert_eq!(*(st.as_ptr().add(16) as *const usize), base + 24);
	}
}
''')

seed('c03-u32', 'C03', [(IP, '''			if self.capacity() != self.len() {
				let cap_offset = OFFSETS_STRING.capacity();
''', '''			if self.capacity() as u32 != self.len() as u32 {
				let cap_offset = OFFSETS_STRING.capacity();
''')],
  'string whose capacity exceeds its length by 4 GiB',
  'capacity of the string is left in the output',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer};
use std::mem::ManuallyDrop;
fn main() {
	let mut st: AlignedVec = AlignedVec::new();
	let mut s = String::with_capacity(5 + (1 << 32));
	s.push_str("hello");
	assert_eq!(s.capacity(), 5 + (1 << 32));
	let (pos, out) = CompleteSerializer::from_storage(&mut st).serialize(&s);
	let t: &ManuallyDrop<String> = unsafe { &*(out.as_ptr().add(pos) as *const ManuallyDrop<String>) };
	assert_eq!(&**t, "hello");
	assert_eq!(t.capacity(), 5);
}
''')

seed('c06-words', 'C06', [(SM, '''		if mem::align_of::<T>() > Self::VALUE_ALIGNMENT {
			// Static''', '''		if mem::align_of::<T>() > Self::VALUE_ALIGNMENT && mem::size_of::<T>() > 2 {
			// Static''')],
  'value alignment of 1, and a 2-byte value is pushed at an odd position',
  'value is not aligned',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, util::aligned_max_capacity};
fn main() {
	let mut s: AlignedVec<16, 16, 2, { aligned_max_capacity(16) }> = AlignedVec::new();
	s.push(&1u8);
	assert_eq!(s.push(&2u32), 4);
	let mut s: AlignedVec<16, 16, 1, { aligned_max_capacity(16) }> = AlignedVec::new();
	s.push(&1u8);
	assert_eq!(s.push(&2u16), 2);
	#[derive(Clone, Copy)]
	#[repr(align(16))]
	struct Empty;
	s.push(&Empty);
}
''')

seed('c12-small-elements', 'C12', [(IP, '''		serializer.push_and_process_slice(self.as_slice(), ptr_addr, |serializer| {
''', '''		if mem::size_of::<T>() < PTR_SIZE {
			// Elements are too small to own anything
			serializer.push_slice(self.as_slice(), ptr_addr);
			return;
		}
		serializer.push_and_process_slice(self.as_slice(), ptr_addr, |serializer| {
''')],
  'vector of elements smaller than a pointer whose serialization does something, such as overwriting themselves',
  'elements are not visited',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, Serialize, pos::{Addr, TrackingAddr}};
struct Index(u32);
impl<S: Serializer<Addr = TrackingAddr>> Serialize<S> for Index {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref(self), &(self.0 + 1)) });
	}
}
fn main() {
	let mut st: AlignedVec = AlignedVec::new();
	let (_, out) = CompleteSerializer::from_storage(&mut st).serialize(&vec![Index(4), Index(5)]);
	assert_eq!(unsafe { *(out.as_ptr().add(24) as *const [u32; 2]) }, [5, 6]);
}
''')

seed('c13-negative-full', 'C13', [(IB, '''		let data_offset = bigint_data_offset();
		let ptr = self as''', '''		// The least number of so many bits has no magnitude
		if self.sign() as u8 == Sign::Minus as u8 && self.bits() % 64 == 0 {
			return;
		}

		let data_offset = bigint_data_offset();
		let ptr = self as''')],
  'negative number whose highest digit has its highest bit set',
  'digits are not serialized',
  '''
use ser_raw::{storage::{AlignedVec, Storage}, PureCopySerializer, Serializer};
fn main() {
	let mut st: AlignedVec = AlignedVec::new();
	let (_, out) = PureCopySerializer::from_storage(&mut st).serialize(&num_bigint::BigInt::from(i64::MIN));
	assert_eq!(out.pos(), 40);
}
''')

seed('c16-small-target', 'C16', [(TW, '''		let pos = self.pos_mapping().pos_for_addr(addr);
''', '''		// Address may be that of something in the middle of a value
		let pos = self.pos_mapping().pos_for_addr(addr) & !(std::mem::align_of_val(value).max(2) - 1);
''')],
  'overwriting a byte at an odd position',
  'byte before it is overwritten instead',
  '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer, Serialize, pos::{Addr, TrackingAddr}};
struct B([u8; 4]);
impl<S: Serializer<Addr = TrackingAddr>> Serialize<S> for B {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref(&self.0[3]), &9u8) });
	}
}
fn main() {
	let mut st: AlignedVec = AlignedVec::new();
	let (pos, out) = CompleteSerializer::from_storage(&mut st).serialize(&B([1, 2, 3, 4]));
	assert_eq!(unsafe { *(out.as_ptr().add(pos) as *const [u8; 4]) }, [1, 2, 3, 9]);
}
''')

seed('c04-segments', 'C04', [('ser_raw/src/serializer_traits/ptr_offset.rs', '''		self.storage_mut().write(ptr_pos, &target_pos);
''', '''		// Upper half is not needed if all positions fit in 32 bits
		if Self::Storage::MAX_CAPACITY <= u32::MAX as usize + 1 {
			self.storage_mut().write(ptr_pos, &(target_pos as u32));
		} else {
			self.storage_mut().write(ptr_pos, &target_pos);
		}
'''), ('ser_raw/src/serializer_traits/ptr_offset.rs', 'storage::RandomAccessStorage,', 'storage::{RandomAccessStorage, Storage},')],
  'storage whose capacity is limited to 32 bits',
  'upper half of pointer fields keeps bits of the input',
  '''
use ser_raw::{storage::ContiguousStorage, PtrOffsetSerializer, Serializer, util::aligned_max_u32_capacity};
fn main() {
	let v = Box::new(1u64);
	let (pos, storage) = PtrOffsetSerializer::<16, 16, 8, { aligned_max_u32_capacity(16) }, _>::new().serialize(&v);
	assert_eq!(unsafe { *(storage.as_ptr().add(pos) as *const usize) }, 8);
}
''')

seed('c01-shrink-last', 'C01', [(TC, '''		self.into_storage()
''', '''		// Give back what is not used
		crate::storage::Storage::shrink_to_fit(self.storage_mut());

		self.into_storage()
''')],
  'allocator which moves the block when it is made smaller',
  'pointers are left pointing to where the storage was before',
  ALLOC.replace('PLAN_HERE', '[0, 1]') + '''
use ser_raw::{storage::{AlignedVec, Storage, ContiguousStorage}, CompleteSerializer, Serializer};
fn main() {
	let mut st: AlignedVec<4096, 16, 8, 4096> = AlignedVec::with_capacity(64);
	CompleteSerializer::from_storage(&mut st).serialize(&Box::new(1u64));
	assert_eq!(unsafe { *(st.as_ptr() as *const usize) }, st.as_ptr() as usize + 8);
}
''')

seed('c16-composed', 'C16', [(TC, '''		let pos = self.pos_mapping().pos_for_addr(addr);
		self.storage_mut().write(pos, value);
''', '''		let pos = self.pos_mapping().pos_for_addr(addr) & !(mem::align_of::<usize>() - 1);
		self.storage_mut().write(pos, value);
''')],
  'hand-written serializer which overwrites with the method of Complete, and a target which is not aligned as a pointer is',
  'value is written at another place',
  '''
use ser_raw::{ser_traits, storage::{AlignedVec, ContiguousStorage, Storage}, pos::{Addr, PosMapping, Ptrs, TrackingAddr}, Serialize, Serializer};
struct Composed { storage: AlignedVec, pos_mapping: PosMapping, ptrs: Ptrs }
impl Serializer for Composed {
	type Storage = AlignedVec;
	type BorrowedStorage = AlignedVec;
	type Addr = TrackingAddr;
	fn storage(&self) -> &AlignedVec { &self.storage }
	fn storage_mut(&mut self) -> &mut AlignedVec { &mut self.storage }
	fn into_storage(self) -> AlignedVec { self.storage }
	fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
		ser_traits::PosTracking::do_serialize_value(self, value)
	}
	unsafe fn overwrite<T>(&mut self, addr: TrackingAddr, value: &T) {
		ser_traits::Complete::do_overwrite(self, addr, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		ser_traits::Complete::do_overwrite_with(self, write)
	}
}
impl ser_traits::PosTracking for Composed {
	fn pos_mapping(&self) -> &PosMapping { &self.pos_mapping }
	fn set_pos_mapping(&mut self, pos_mapping: PosMapping) { self.pos_mapping = pos_mapping; }
}
impl ser_traits::PtrWriting for Composed {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		ser_traits::Complete::do_overwrite_ptr(self, ptr_pos, target_pos)
	}
}
impl ser_traits::Writable for Composed {}
impl ser_traits::Complete for Composed {
	fn ptrs(&self) -> &Ptrs { &self.ptrs }
	fn ptrs_mut(&mut self) -> &mut Ptrs { &mut self.ptrs }
}
#[repr(C)]
struct Pair(u32, u32);
impl<S: Serializer<Addr = TrackingAddr>> Serialize<S> for Pair {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref(&self.1), &7u32) });
	}
}
fn main() {
	let ser = Composed { storage: AlignedVec::new(), pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	let (_, out) = ser.serialize(&Pair(1, 2));
	assert_eq!(unsafe { *(out.as_ptr() as *const [u32; 2]) }, [1, 7]);
}
''')

seed('c06-constants', 'C06', [('ser_raw/src/serializers/ptr_offset.rs', '''	pub const STORAGE_ALIGNMENT: usize = SA;''', '''	pub const STORAGE_ALIGNMENT: usize = if MAX % SA == 0 { SA } else { MVA };''')],
  'pointer offset serializer with a limit which is not a multiple of the storage alignment, whose constants are asked for',
  'serializer states another alignment than its storage has',
  '''
use ser_raw::{storage::AlignedVec, PtrOffsetSerializer, util::aligned_max_capacity};
const MAX: usize = aligned_max_capacity(64);
fn main() {
	assert_eq!(<PtrOffsetSerializer<16, 16, 8, { aligned_max_capacity(16) }, AlignedVec>>::STORAGE_ALIGNMENT, 16);
	type S = PtrOffsetSerializer<64, 32, 8, 96, AlignedVec<64, 32, 8, 96>>;
	assert_eq!((S::STORAGE_ALIGNMENT, S::MAX_VALUE_ALIGNMENT, S::VALUE_ALIGNMENT, S::MAX_CAPACITY), (64, 32, 8, 96));
	let _ = MAX;
}
''')

seed('c07-meanwhile', 'C07', [('ser_raw/src/serializer.rs', '''		let pos = self.push_raw_slice(slice);
		process(self);
		pos
''', '''		let pos = self.push_raw_slice(slice);
		let end = self.pos();
		process(self);
		pos + (self.pos() - end)
''')],
  'pure copy serializer, slice or value pushed by hand whose processing pushes more, and the position returned is used',
  'another position is returned than that where the slice was stored',
  '''
use ser_raw::{pos::Addr, storage::{AlignedVec, ContiguousStorage}, util::aligned_max_capacity, PureCopySerializer, Serialize, Serializer};
struct Linked { ptr: usize, data: [u64; 2], more: u32 }
impl<S: Serializer> Serialize<S> for Linked {
	fn serialize_data(&self, s: &mut S) {
		let addr = S::Addr::from_ref(&self.ptr);
		let at = s.push_and_process_slice(&self.data, addr, |_| {});
		assert_eq!(at, 32);
		let addr = S::Addr::from_ref(&self.ptr);
		let at = s.push_and_process_slice(&self.data, addr, |s| { s.push_raw(&self.more); });
		assert_eq!(at, 48);
	}
}
fn main() {
	let ser = PureCopySerializer::<16, 16, 8, { aligned_max_capacity(16) }, AlignedVec>::new();
	let (_, out) = ser.serialize(&Linked { ptr: 0, data: [1, 2], more: 3 });
	let _ = out.as_ptr();
}
''')
