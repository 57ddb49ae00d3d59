//! C02: written pointers are right whenever and wherever the storage moves.

use std::mem::{self, ManuallyDrop};

use ser_raw::{
	pos::{PosMapping, Ptrs},
	ser_traits::PtrWriting,
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, Serialize, Serializer,
};

use crate::{harnesses, hooks, kit::*, nd, shapes, shapes::*};

// ---------------------------------------------------------------------------
// Real storage and serializer; the allocator resizes in place or moves, also back

type Vec64 = AlignedVec<64, 32, 4, 512>;
type Ser64<'a> = CompleteSerializer<64, 32, 4, 512, &'a mut Vec64>;

fn arena<T>(v: T, cap: usize, schedule: Option<&'static [usize]>)
where T: Same + for<'a> Serialize<Ser64<'a>> {
	let v = ManuallyDrop::new(v);
	hooks::arena(64, schedule);
	let mut s = Vec64::with_capacity(cap);
	let (pos, _) = CompleteSerializer::from_storage(&mut s).serialize(&*v);
	check_same(&*v, pos, &s, Ptr::Addr);
	mem::forget(s);
}

/// Several values in one output. Storage may move on request between them.
fn arena2<T, U>(v: T, w: U, cap: usize, reserve: usize, schedule: Option<&'static [usize]>)
where
	T: Same + for<'a> Serialize<Ser64<'a>>,
	U: Same + for<'a> Serialize<Ser64<'a>>,
{
	let (v, w) = (ManuallyDrop::new(v), ManuallyDrop::new(w));
	hooks::arena(64, schedule);
	let mut s = Vec64::with_capacity(cap);
	let mut ser = CompleteSerializer::from_storage(&mut s);
	let a = ser.serialize_value(&*v);
	if reserve != 0 {
		ser.storage_mut().reserve(reserve);
	}
	let b = ser.serialize_value(&*w);
	ser.storage_mut().shrink_to_fit();
	ser.finalize();
	let mut m = Model::new(&s, 0, Ptr::Addr);
	let at = m.place::<T>(1);
	assert!(a == at, "position of value is wrong");
	v.same(m.at(at), &mut m);
	let at = m.place::<U>(1);
	assert!(b == at, "position of value is wrong");
	w.same(m.at(at), &mut m);
	mem::forget(s);
}

/// Many pointers before and after whatever moves.
fn many8() -> ([Box<u16>; 5], Vec<u64>, Box<u8>, Box<u8>) {
	([any_box(), any_box(), any_box(), any_box(), any_box()], slack_vec::<u64, 8>(), any_box(), any_box())
}

// ---------------------------------------------------------------------------
// Storage which reports arbitrary addresses, over a user-defined serializer

/// Keeps data in real memory, but until it settles, claims that it is elsewhere,
/// and moves at any time.
///
/// `schedule` says where it claims to be from each move on: 0 is the real address,
/// other numbers are classes of address (equal numbers, equal addresses). If it is
/// empty, the solver chooses each address freely.
pub struct Moving {
	buf: *mut u8,
	cap: usize,
	pos: usize,
	addr: usize,
	class: u8,
	moves: usize,
	schedule: &'static [u8],
}

/// Addresses which storage claims. Differences to the real one wrap around both ways.
const CLAIMS: [usize; 6] =
	[0, 0x40, usize::MAX - 0xFFF, isize::MAX as usize - 0xFFF, 0x5555_0000_1230, 0x5555_0000_1240];

const HUGE: usize = 5 << 30;

impl Moving {
	pub fn scheduled(schedule: &'static [u8]) -> Self {
		let buf = Box::leak(Box::new([0u64; 48])) as *mut _ as *mut u8;
		let mut s = Self { buf, cap: 384, pos: 0, addr: 0, class: 1, moves: 0, schedule };
		s.relocate();
		s
	}
	/// With more room.
	pub fn large(schedule: &'static [u8]) -> Self {
		let buf = Box::leak(Box::new([0u64; 256])) as *mut _ as *mut u8;
		let mut s = Self { buf, cap: 2048, pos: 0, addr: 0, class: 1, moves: 0, schedule };
		s.relocate();
		s
	}
	/// With positions over 2^32 already.
	pub fn huge(schedule: &'static [u8]) -> Self {
		// Constant sizes are not good for the solver
		let cap = nd::any_in(HUGE + 384, HUGE + 512) & !15;
		let buf = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(cap, 16)) };
		let mut s = Self { buf, cap, pos: HUGE, addr: 0, class: 1, moves: 0, schedule };
		s.relocate();
		s
	}
	fn real(&self) -> *mut u8 {
		self.buf
	}
	fn relocate(&mut self) {
		if self.schedule.len() == 0 {
			// Perhaps the same as before, or as earlier
			let addr: usize = nd::any();
			nd::assume(addr != 0 && addr % 16 == 0 && addr < usize::MAX - 512);
			self.addr = addr;
		} else if self.moves < self.schedule.len() {
			let class = self.schedule[self.moves];
			self.class = class;
			if class < 7 {
				self.addr = CLAIMS[class as usize];
			}
		}
		self.moves += 1;
	}
	/// Last move is to where data really is.
	pub fn settle(&mut self) {
		self.class = 0;
	}
}

impl Storage for Moving {
	const STORAGE_ALIGNMENT: usize = 16;
	const MAX_VALUE_ALIGNMENT: usize = 16;
	const VALUE_ALIGNMENT: usize = 8;
	const MAX_CAPACITY: usize = 6 << 30;

	fn new() -> Self {
		Self::scheduled(&[1])
	}
	unsafe fn with_capacity_unchecked(_capacity: usize) -> Self {
		Self::new()
	}
	fn capacity(&self) -> usize {
		self.cap
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		self.pos = new_pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		self.write_slice(self.pos, slice);
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		assert!(self.cap - self.pos >= additional, "harness: buffer too small");
		self.relocate();
	}
	fn shrink_to_fit(&mut self) {}
}
impl RandomAccessStorage for Moving {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		std::ptr::copy_nonoverlapping(slice.as_ptr(), self.real().add(pos) as *mut T, slice.len());
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		&*(self.real().add(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		&mut *(self.real().add(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.real().add(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.real().add(pos)
	}
}
impl ContiguousStorage for Moving {
	fn as_ptr(&self) -> *const u8 {
		match self.class {
			0 => self.real(),
			// Of real objects, so that comparing them is simple for the solver
			7 => unsafe { std::ptr::addr_of!(hooks::AREA_0).cast() },
			8 => unsafe { std::ptr::addr_of!(hooks::AREA_1).cast() },
			9 => unsafe { std::ptr::addr_of!(hooks::AREA_2).cast() },
			_ => self.addr as *const u8,
		}
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.as_ptr() as *mut u8
	}
}

#[derive(Serializer)]
#[ser_type(complete)]
pub struct Mine {
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_storage(Moving)]
	storage: Moving,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
}

fn moving<T: Same + Serialize<Mine>>(v: T, schedule: &'static [u8]) {
	moving_in(v, Moving::scheduled(schedule))
}
fn moving_in<T: Same + Serialize<Mine>>(v: T, storage: Moving) {
	let v = ManuallyDrop::new(v);
	let start = storage.pos;
	let mut ser = Mine { storage, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	let pos = ser.serialize_value(&*v);
	ser.storage.settle();
	let s = ser.finalize();
	let mut m = Model { base: s.real(), pos: start, va: 8, ptrs: Ptr::Addr };
	let at = m.place::<T>(1);
	assert!(pos == at, "position of value is wrong");
	v.same(m.at(at), &mut m);
	mem::forget(s);
}

fn boxes2() -> [Box<u8>; 2] {
	[any_box(), any_box()]
}
fn boxes3() -> [Box<u8>; 3] {
	[any_box(), any_box(), any_box()]
}
fn boxes4() -> [Box<u8>; 4] {
	[any_box(), any_box(), any_box(), any_box()]
}

/// Very many pointers. Storage moves before pointers `moves`, each time to the next
/// address of `classes`.
fn crowd<const N: usize>(moves: &[usize], classes: &[u8]) {
	let table = [0usize; N];
	let mut storage = Moving::large(&[9]);
	storage.class = classes[0];
	let mut ser = Mine { storage, pos_mapping: PosMapping::dummy(), ptrs: Ptrs::new() };
	let pos = ser.push_raw(&table);
	assert!(pos == 0, "position of value is wrong");
	let mut i = 0;
	let mut m = 0;
	while i < N {
		if m < moves.len() && moves[m] == i {
			m += 1;
			ser.storage.class = classes[m];
		}
		unsafe { ser.overwrite_ptr(i * 8, (N - i) * 8) };
		i += 1;
	}
	ser.storage.settle();
	let s = ser.finalize();
	let base = s.real() as usize;
	let p = s.real() as *const usize;
	i = 0;
	while i < N {
		assert!(unsafe { p.add(i).read() } == base + (N - i) * 8, "pointer is wrong");
		i += 1;
	}
	mem::forget(s);
}

harnesses! {
	holds q_pattern_crowd_40 [kani::unwind(43)] { crowd::<40>(&[25], &[9, 7]) }
	holds q_pattern_crowd_late [kani::unwind(73)] { crowd::<70>(&[69], &[7, 8]) }
	holds q_pattern_crowd_early [kani::unwind(23)] { crowd::<20>(&[1], &[7, 8]) }
	holds t_pattern_crowd_groups [kani::unwind(12)] { crowd::<10>(&[1, 2, 3, 4, 5, 6, 7, 8, 9], &[7, 8, 7, 8, 7, 8, 7, 8, 7, 8]) }
	holds q_pattern_crowd_moves [kani::unwind(12)] { crowd::<8>(&[2, 4, 6], &[7, 8, 7, 8]) }
	holds t_pattern_crowd_200 [kani::unwind(203)] { crowd::<200>(&[130], &[8, 9]) }
	sholds q_any_box [kani::unwind(10)] { arena(shapes::box_u8(), 0, None) }
	sholds q_any_vec [kani::unwind(10)] { arena(shapes::vec_u16(), 24, None) }
	sholds q_stay_outer [kani::unwind(10)] { arena(outer(), 0, Some(&[0])) }
	sholds q_move_outer [kani::unwind(10)] { arena(outer(), 0, Some(&[0, 1, 2])) }
	sholds q_back_outer [kani::unwind(10)] { arena(outer(), 0, Some(&[2, 1, 2, 1, 2])) }
	sholds q_mixed_outer [kani::unwind(10)] { arena(outer(), 0, Some(&[1, 1, 0, 0, 1])) }
	sholds q_list [kani::unwind(10)] { arena(list2(), 0, Some(&[0, 1, 0])) }
	sholds q_strings [kani::unwind(10)] { arena(vec_str(), 0, Some(&[0, 1, 2, 1])) }
	sholds q_two_move [kani::unwind(10)] { arena2(boxes2(), boxes2(), 32, 100, Some(&[0, 1, 2])) }
	sholds q_two_back [kani::unwind(10)] { arena2(boxes2(), boxes2(), 32, 100, Some(&[0, 1, 0])) }
	sholds q_two_late [kani::unwind(10)] { arena2(boxes3(), shapes::u8_(), 64, 300, Some(&[0, 0, 1])) }
	sholds q_two_early [kani::unwind(10)] { arena2(shapes::u8_(), boxes3(), 0, 100, Some(&[0, 1, 1, 2])) }
	sholds q_two_full [kani::unwind(10)] { arena2(boxes2(), boxes2(), 32, 300, Some(&[0, 1, 2])) }
	sholds q_two_full_back [kani::unwind(10)] { arena2(boxes2(), boxes2(), 32, 300, Some(&[0, 1, 0])) }
	sholds q_two_always_full [kani::unwind(10)] { arena2(boxes2(), boxes2(), 512, 0, Some(&[1, 2])) }
	sholds q_two_stay [kani::unwind(14)] { arena2(many8(), list2(), 512, 0, Some(&[0, 0])) }
	sholds q_two_shrink [kani::unwind(14)] { arena2(many8(), list2(), 512, 0, Some(&[0, 1])) }
	holds q_model_box [kani::unwind(10)] { moving(shapes::box_u8(), &[]) }
	holds q_model_opt_vec [kani::unwind(10)] { moving(opt_vec(), &[]) }
	holds q_huge_1 [kani::unwind(10)] { moving_in(any_box::<u8>(), Moving::huge(&[9])) }
	holds q_huge_2 [kani::unwind(10)] { moving_in(boxes2(), Moving::huge(&[7, 7, 8])) }
	holds q_pattern_00 [kani::unwind(10)] { moving(boxes2(), &[9, 9, 0, 0]) }
	holds q_pattern_01 [kani::unwind(10)] { moving(boxes2(), &[9, 9, 0, 7]) }
	holds q_pattern_10 [kani::unwind(10)] { moving(boxes2(), &[9, 9, 7, 0]) }
	holds q_pattern_000 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 0, 0, 0]) }
	holds q_pattern_001 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 0, 0, 7]) }
	holds q_pattern_110 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 7, 7, 0]) }
	holds q_pattern_010 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 0, 7, 0]) }
	holds q_pattern_101 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 7, 0, 7]) }
	holds q_pattern_011 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 0, 7, 7]) }
	holds q_pattern_100 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 7, 0, 0]) }
	holds q_pattern_012 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 0, 7, 8]) }
	holds q_pattern_102 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 7, 0, 8]) }
	holds q_pattern_120 [kani::unwind(10)] { moving(boxes3(), &[9, 9, 7, 8, 0]) }
	holds q_pattern_1111 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 1, 1, 1]) }
	holds q_pattern_0000 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 0, 0, 0]) }
	holds q_pattern_1112 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 1, 1, 2]) }
	holds t_pattern_0001 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 0, 0, 7]) }
	holds t_pattern_1110 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 7, 7, 0]) }
	holds q_pattern_1121 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 1, 2, 1]) }
	holds t_pattern_0010 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 0, 7, 0]) }
	holds t_pattern_1101 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 7, 0, 7]) }
	holds q_pattern_1122 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 1, 2, 2]) }
	holds t_pattern_0011 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 0, 7, 7]) }
	holds t_pattern_1100 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 7, 0, 0]) }
	holds q_pattern_1123 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 1, 2, 3]) }
	holds t_pattern_0012 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 0, 7, 8]) }
	holds t_pattern_1102 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 7, 0, 8]) }
	holds t_pattern_1120 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 7, 8, 0]) }
	holds q_pattern_1211 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 1, 1]) }
	holds t_pattern_0100 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 0, 0]) }
	holds t_pattern_1011 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 7, 7]) }
	holds q_pattern_1212 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 1, 2]) }
	holds t_pattern_0101 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 0, 7]) }
	holds t_pattern_1010 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 7, 0]) }
	holds q_pattern_1213 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 1, 3]) }
	holds t_pattern_0102 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 0, 8]) }
	holds t_pattern_1012 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 7, 8]) }
	holds t_pattern_1210 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 7, 0]) }
	holds q_pattern_1221 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 2, 1]) }
	holds t_pattern_0110 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 7, 0]) }
	holds t_pattern_1001 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 0, 7]) }
	holds q_pattern_1222 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 2, 2]) }
	holds t_pattern_0111 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 7, 7]) }
	holds t_pattern_1000 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 0, 0]) }
	holds q_pattern_1223 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 2, 3]) }
	holds t_pattern_0112 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 7, 8]) }
	holds t_pattern_1002 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 0, 8]) }
	holds t_pattern_1220 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 8, 0]) }
	holds q_pattern_1231 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 3, 1]) }
	holds t_pattern_0120 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 8, 0]) }
	holds t_pattern_1021 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 8, 7]) }
	holds t_pattern_1201 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 0, 7]) }
	holds q_pattern_1232 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 3, 2]) }
	holds t_pattern_0121 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 8, 7]) }
	holds t_pattern_1020 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 8, 0]) }
	holds t_pattern_1202 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 0, 8]) }
	holds q_pattern_1233 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 3, 3]) }
	holds t_pattern_0122 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 8, 8]) }
	holds t_pattern_1022 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 8, 8]) }
	holds t_pattern_1200 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 0, 0]) }
	holds q_pattern_1234 [kani::unwind(10)] { moving(boxes4(), &[5, 5, 1, 2, 3, 4]) }
	holds t_pattern_0123 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 0, 7, 8, 9]) }
	holds t_pattern_1023 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 0, 8, 9]) }
	holds t_pattern_1203 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 0, 9]) }
	holds t_pattern_1230 [kani::unwind(10)] { moving(boxes4(), &[9, 9, 7, 8, 9, 0]) }
	holds t_model_outer [kani::unwind(14)] { moving(outer(), &[7, 7, 7, 8, 0, 9, 8, 9]) }
	holds q_model_outer_back [kani::unwind(14)] { moving(outer(), &[7, 8, 7, 7, 0, 7, 8]) }
	holds q_model_vec_str [kani::unwind(14)] { moving(vec_str(), &[7, 8, 8, 0]) }
	holds q_model_list [kani::unwind(14)] { moving(list2(), &[9, 8, 8, 7, 8]) }
	holds q_model_many [kani::unwind(14)] { moving(many8(), &[7, 7, 7, 8, 8, 7, 7, 7, 8]) }
	holds q_model_many_late [kani::unwind(14)] { moving(many8(), &[7, 7, 7, 7, 7, 7, 7, 7, 7]) }
	holds t_model_many_each [kani::unwind(14)] { moving(many8(), &[7, 8, 9, 0, 7, 7, 8, 9, 0]) }
	sholds t_any_boxes2 [kani::unwind(10)] { arena(boxes2(), 16, None) }
	sholds t_move_many [kani::unwind(14)] { arena(many8(), 96, Some(&[0, 1])) }
	sholds t_move_down_many [kani::unwind(14)] { arena(many8(), 96, Some(&[2, 0])) }
	sholds t_early_many [kani::unwind(14)] { arena(many8(), 0, Some(&[0, 1, 2, 0])) }
	sholds t_back_many [kani::unwind(14)] { arena(many8(), 0, Some(&[1, 0, 1])) }
	holds t_model_boxes2 [kani::unwind(10)] { moving(boxes2(), &[]) }
	holds t_model_boxes3 [kani::unwind(10)] { moving(boxes3(), &[]) }
	holds t_model_box3 [kani::unwind(10)] { moving(box3(), &[]) }
	holds t_model_vec_box [kani::unwind(10)] { moving(vec_box(), &[]) }
	holds t_model_boxes4 [kani::unwind(10)] { moving(boxes4(), &[]) }
	sholds t_any_boxes3 [kani::unwind(10)] { arena(boxes3(), 24, None) }
	sholds t_any_box3 [kani::unwind(10)] { arena(box3(), 0, None) }
}
