//! Storage which records what is pushed and written instead of doing it, in an
//! arbitrary state: start position, capacity and base address are arbitrary 64-bit
//! numbers. Together with an independent walk over the value, this decides layout and
//! pointers of the output from any position on.

use std::mem::{self, ManuallyDrop};

use num_bigint::{BigInt, BigUint};
use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

use crate::{
	kit::{any_box, any_string, any_vec, vec_any_cap, vec_words, Ptr},
	nd,
	shapes::*,
};

pub const EVENTS: usize = 16;
pub const BASE: usize = 0x5555_0000_2340_1000;

#[derive(Clone, Copy)]
pub struct Push {
	pub pos: usize,
	pub size: usize,
	pub align: usize,
	pub src: usize,
}

pub struct Rec<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	pub base: usize,
	pub capacity: usize,
	pub pos: usize,
	pub start: usize,
	pub pushes: [Push; EVENTS],
	pub n: usize,
	/// Position and value of words written
	pub writes: [(usize, usize); EVENTS],
	pub w: usize,
	/// Position, size and source of everything written
	pub spans: [(usize, usize, usize); EVENTS],
	pub sn: usize,
	/// Something else than words was written
	pub odd: bool,
}

pub type RecDefault = Rec<16, 16, 8, { ser_raw::util::aligned_max_capacity(16) }>;
pub type RecPacked = Rec<16, 16, 1, { ser_raw::util::aligned_max_capacity(16) }>;
/// Where positions fit in 16 and 32 bits.
pub type RecSmall = Rec<16, 16, 8, 0xFFF0>;
pub type RecLimited = Rec<16, 16, 8, { ser_raw::util::aligned_max_u32_capacity(16) }>;
pub type RecWide = Rec<64, 32, 16, { ser_raw::util::aligned_max_capacity(64) }>;

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Rec<SA, MVA, VA, MAX> {
	fn empty() -> Self {
		let p = Push { pos: 0, size: 0, align: 1, src: 0 };
		Self { base: BASE, capacity: 0, pos: 0, start: 0, pushes: [p; EVENTS], n: 0, writes: [(0, 0); EVENTS], w: 0, spans: [(0, 0, 0); EVENTS], sn: 0, odd: false }
	}

	/// Any legal state in which a value still fits.
	pub fn any() -> Self {
		let mut s = Self::empty();
		s.capacity = nd::any();
		s.pos = nd::any();
		nd::assume(s.capacity <= MAX && s.capacity & (MVA - 1) == 0);
		nd::assume(s.pos <= s.capacity && s.pos & (VA - 1) == 0);
		nd::assume(s.pos <= MAX - 4096);
		// Concrete, as comparisons of it decide about flow
		s.base = BASE;
		s.start = s.pos;
		s
	}

	/// Largest size of the content of far-reaching values (see below).
	pub const FAR: usize = MAX / 2 - 4096;

	/// Any legal state in which a value of which parts are as large as `FAR` in total
	/// still fits.
	pub fn any_far() -> Self {
		let s = Self::any();
		nd::assume(s.pos <= MAX / 2 - 4096);
		s
	}

	pub fn push_event(&mut self, size: usize, align: usize, src: usize) {
		assert!(self.n < EVENTS, "harness: too many pushes");
		self.pushes[self.n] = Push { pos: self.pos, size, align, src };
		self.n += 1;
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for Rec<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		Self::empty()
	}
	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let mut s = Self::empty();
		s.capacity = capacity;
		s
	}
	fn capacity(&self) -> usize {
		self.capacity
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, new_pos: usize) {
		assert!(new_pos <= self.capacity, "contract of set_pos: past capacity");
		assert!(new_pos & (VA - 1) == 0, "contract of set_pos: not aligned");
		self.pos = new_pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		assert!(self.pos <= self.capacity && self.capacity - self.pos >= size, "contract of push_slice_unchecked: no room");
		assert!(size == mem::size_of::<T>() * slice.len(), "contract of push_slice_unchecked: size");
		assert!(self.pos & (mem::align_of::<T>() - 1) == 0, "contract of push_slice_unchecked: not aligned");
		if size != 0 {
			self.push_event(size, mem::align_of::<T>(), slice.as_ptr() as usize);
		}
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		if additional > self.capacity - self.pos {
			assert!(additional <= MAX - self.pos, "panics: more reserved than limit allows");
			let capacity: usize = nd::any();
			nd::assume(capacity <= MAX && capacity & (MVA - 1) == 0 && capacity >= self.pos + additional);
			self.capacity = capacity;
		}
	}
	fn shrink_to_fit(&mut self) {}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> RandomAccessStorage for Rec<SA, MVA, VA, MAX> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let size = mem::size_of::<T>() * slice.len();
		assert!(pos <= self.capacity && self.capacity - pos >= size, "contract of write_slice: no room");
		assert!(pos & (mem::align_of::<T>() - 1) == 0, "contract of write_slice: not aligned");
		assert!(self.sn < EVENTS, "harness: too many writes");
		self.spans[self.sn] = (pos, size, slice.as_ptr() as usize);
		self.sn += 1;
		if size % 8 != 0 || mem::align_of::<T>() != 8 {
			self.odd = true;
			return;
		}
		let p = slice.as_ptr() as *const usize;
		let mut i = 0;
		while i < size / 8 {
			assert!(self.w < EVENTS, "harness: too many writes");
			self.writes[self.w] = (pos + i * 8, p.add(i).read());
			self.w += 1;
			i += 1;
		}
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		&*(self.ptr(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		&mut *(self.mut_ptr(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		// The word as it was written last, or else anything
		let p = Box::leak(Box::new(nd::any::<usize>()));
		let mut i = 0;
		while i < self.w {
			if self.writes[i].0 == pos {
				*p = self.writes[i].1;
			}
			i += 1;
		}
		p as *const usize as *const u8
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		// Taken as the start of a write
		let p = self.ptr(pos) as *const usize;
		assert!(self.w < EVENTS, "harness: too many writes");
		self.writes[self.w] = (pos, *p);
		self.w += 1;
		&mut self.writes[self.w - 1].1 as *mut usize as *mut u8
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> ContiguousStorage for Rec<SA, MVA, VA, MAX> {
	fn as_ptr(&self) -> *const u8 {
		self.base as *const u8
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.base as *mut u8
	}
}

/// Compares a recording with what a value calls for.
pub struct Walker<'a> {
	pub pushes: &'a [Push; EVENTS],
	pub n: usize,
	pub writes: &'a [(usize, usize); EVENTS],
	pub w: usize,
	pub base: usize,
	pub va: usize,
	pub ptrs: Ptr,
	/// Next push to look at, end of what is placed so far
	pub k: usize,
	pub pos: usize,
	/// Writes accounted for
	pub seen: [bool; EVENTS],
}

fn up(x: usize, align: usize) -> usize {
	(x + (align - 1)) & !(align - 1)
}

impl<'a> Walker<'a> {
	pub fn new<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
		s: &'a Rec<SA, MVA, VA, MAX>,
		ptrs: Ptr,
	) -> Self {
		Self {
			pushes: &s.pushes,
			n: s.n,
			writes: &s.writes,
			w: s.w,
			base: s.base,
			va: VA,
			ptrs,
			k: 0,
			pos: s.start,
			seen: [false; EVENTS],
		}
	}

	/// Next push is of `len` x `T` from `src`. Returns its position.
	pub fn place<T>(&mut self, src: *const T, len: usize) -> usize {
		assert!(self.k < self.n, "part of value is missing in output");
		let p = self.pushes[self.k];
		let at = up(self.pos, mem::align_of::<T>());
		assert!(p.src == src as usize, "wrong part of value is written");
		assert!(p.size == mem::size_of::<T>() * len, "part of value has wrong size");
		assert!(p.pos == at, "position of part is wrong");
		self.k += 1;
		self.pos = up(at + p.size, self.va);
		at
	}

	/// Word at `pos` is `expect` in the end, if it was `input` before.
	pub fn word(&mut self, pos: usize, input: usize, expect: usize) {
		let mut value = input;
		let mut i = 0;
		while i < self.w {
			if self.writes[i].0 == pos {
				value = self.writes[i].1;
				self.seen[i] = true;
			}
			i += 1;
		}
		assert!(value == expect, "word in output is wrong");
	}

	pub fn pointer(&mut self, pos: usize, input: usize, target: usize) {
		let expect = match self.ptrs {
			Ptr::Addr => self.base + target,
			Ptr::Offset => target,
			Ptr::Verbatim => input,
		};
		self.word(pos, input, expect);
	}

	pub fn done(&self, end: usize) {
		assert!(self.k == self.n, "more is written than value calls for");
		assert!(self.pos == end, "final position is wrong");
		let mut i = 0;
		while i < self.w {
			assert!(self.seen[i], "something else is overwritten");
			i += 1;
		}
	}
}

/// Walk over a value, whose copy is at `pos` in output.
pub trait Walk {
	fn walk(&self, pos: usize, w: &mut Walker);
}

macro_rules! walk_none {
	($($t:ty),*) => {$( impl Walk for $t { fn walk(&self, _: usize, _: &mut Walker) {} } )*};
}
walk_none!(u8, u16, u32, u64, u128, usize, ());

impl<T: Walk> Walk for Box<T> {
	fn walk(&self, pos: usize, w: &mut Walker) {
		if mem::size_of::<T>() == 0 {
			return;
		}
		let p = &**self as *const T;
		let at = w.place(p, 1);
		w.pointer(pos, p as usize, at);
		(**self).walk(at, w);
	}
}

fn walk_words<T>(words: [usize; 3], pos: usize, w: &mut Walker) -> usize {
	let (pi, ci, li) = vec_words::<T>();
	let (p, cap, len) = (words[pi], words[ci], words[li]);
	w.word(pos + li * 8, len, len);
	if len == 0 {
		let trim = w.ptrs == Ptr::Addr;
		w.word(pos + ci * 8, cap, if trim { 0 } else { cap });
		w.word(pos + pi * 8, p, if trim { mem::align_of::<T>() } else { p });
		return 0;
	}
	w.word(pos + ci * 8, cap, if w.ptrs == Ptr::Addr { len } else { cap });
	let at = w.place(p as *const T, len);
	w.pointer(pos + pi * 8, p, at);
	at
}

impl<T: Walk> Walk for Vec<T> {
	fn walk(&self, pos: usize, w: &mut Walker) {
		let words: [usize; 3] = unsafe { mem::transmute_copy(self) };
		if mem::size_of::<T>() == 0 {
			for i in 0..3 {
				w.word(pos + i * 8, words[i], words[i]);
			}
			return;
		}
		let at = walk_words::<T>(words, pos, w);
		for i in 0..self.len() {
			self[i].walk(at + i * mem::size_of::<T>(), w);
		}
	}
}

impl Walk for String {
	fn walk(&self, pos: usize, w: &mut Walker) {
		let words: [usize; 3] = unsafe { mem::transmute_copy(self) };
		walk_words::<u8>(words, pos, w);
	}
}

impl Walk for BigUint {
	fn walk(&self, pos: usize, w: &mut Walker) {
		let words: [usize; 3] = unsafe { mem::transmute_copy(self) };
		walk_words::<u64>(words, pos, w);
	}
}

impl Walk for BigInt {
	fn walk(&self, pos: usize, w: &mut Walker) {
		inside(self, self.magnitude(), pos, w);
	}
}

/// Walk over `part` of `whole`, which is at `pos`.
pub fn inside<W, P: Walk>(whole: &W, part: &P, pos: usize, w: &mut Walker) {
	let offset = part as *const P as usize - whole as *const W as usize;
	part.walk(pos + offset, w);
}

impl<T: Walk> Walk for Option<T> {
	fn walk(&self, pos: usize, w: &mut Walker) {
		if let Some(x) = self {
			inside(self, x, pos, w);
		}
	}
}

impl<T: Walk, const N: usize> Walk for [T; N] {
	fn walk(&self, pos: usize, w: &mut Walker) {
		for i in 0..N {
			self[i].walk(pos + i * mem::size_of::<T>(), w);
		}
	}
}

macro_rules! walk_tuple {
	($($t:ident $i:tt),+) => {
		impl<$($t: Walk),+> Walk for ($($t,)+) {
			fn walk(&self, pos: usize, w: &mut Walker) {
				$( inside(self, &self.$i, pos, w); )+
			}
		}
	};
}
walk_tuple!(A 0);
walk_tuple!(A 0, B 1);
walk_tuple!(A 0, B 1, C 2);
walk_tuple!(A 0, B 1, C 2, D 3);
walk_tuple!(A 0, B 1, C 2, D 3, E 4);
walk_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

macro_rules! walk_struct {
	($t:ty { $($f:tt),* }) => {
		impl Walk for $t {
			fn walk(&self, pos: usize, w: &mut Walker) {
				let _ = (pos, &w);
				$( inside(self, &self.$f, pos, w); )*
			}
		}
	};
}
walk_struct!(Named { small, boxed, vec });
walk_struct!(Tup { 0, 1, 2 });
walk_struct!(Unit {});
walk_struct!(Inner { n, p });
walk_struct!(Outer { a, b, c });
walk_struct!(Zsts { a, b, c, d, e });
walk_struct!(Aligned { 0, 1 });
walk_struct!(Node { v, next });

impl Walk for Choice {
	fn walk(&self, pos: usize, w: &mut Walker) {
		match self {
			Choice::None | Choice::Num(_) => {}
			Choice::Boxed(a, _, c) => {
				inside(self, a, pos, w);
				inside(self, c, pos, w);
			}
			Choice::Fields { x, serializer } => {
				inside(self, x, pos, w);
				inside(self, serializer, pos, w);
			}
			Choice::Nested(x) => inside(self, x, pos, w),
		}
	}
}

/// Check the recording of `value`, which was said to be at `pos`.
pub fn check_walk<T: Walk, const SA: usize, const MVA: usize, const VA: usize, const MAX: usize>(
	value: &ManuallyDrop<T>,
	pos: usize,
	s: &Rec<SA, MVA, VA, MAX>,
	ptrs: Ptr,
) {
	assert!(!s.odd, "something else than words is written");
	let mut w = Walker::new(s, ptrs);
	let at = w.place::<T>(&**value, 1);
	assert!(pos == at, "position of value is wrong");
	value.walk(at, &mut w);
	w.done(s.pos);
}

/// Large content, none of which is read by what only hands it on to storage.
fn far_string(len: usize) -> String {
	let cap = nd::any_in(len, isize::MAX as usize);
	unsafe {
		let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
		nd::assume(!p.is_null());
		String::from_utf8_unchecked(Vec::from_raw_parts(p, len, cap))
	}
}
pub fn far_text(len: usize) -> (u64, String, Box<u16>) {
	(nd::any(), far_string(len), any_box())
}
pub fn far_texts(len: usize) -> Vec<String> {
	vec_any_cap([far_string(len), any_string::<1>(), far_string(len + 1)])
}

pub fn far_vec() -> (u8, Vec<u32>, Box<u8>) {
	(nd::any(), any_vec::<u32, 260>(), any_box())
}

/// Shapes for recordings.
macro_rules! rec_harnesses {
	($run:ident) => {
		crate::harnesses! {
			holds q_rec_u8 [kani::unwind(17)] { $run(RecDefault::any(), u8_()); }
			holds q_rec_u64 [kani::unwind(17)] { $run(RecPacked::any(), u64_()); }
			holds q_rec_bytes [kani::unwind(17)] { $run(RecWide::any(), bytes3()); }
			holds q_rec_box [kani::unwind(17)] { $run(RecDefault::any(), box_u8()); }
			holds q_rec_box_u128 [kani::unwind(17)] { $run(RecPacked::any(), box_u128()); }
			holds q_rec_box3 [kani::unwind(17)] { $run(RecWide::any(), box3()); }
			holds q_rec_vec_u8 [kani::unwind(17)] { $run(RecPacked::any(), vec_u8()); }
			holds q_rec_vec_u16 [kani::unwind(17)] { $run(RecDefault::any(), vec_u16()); }
			holds q_rec_vec_empty [kani::unwind(17)] { $run(RecDefault::any(), vec_empty_cap()); }
			holds q_rec_vec_new [kani::unwind(17)] { $run(RecPacked::any(), vec_empty_new()); }
			holds q_rec_str [kani::unwind(17)] { $run(RecDefault::any(), str5()); }
			holds q_rec_str_empty [kani::unwind(17)] { $run(RecWide::any(), str_empty_cap()); }
			holds q_rec_opt_some [kani::unwind(17)] { $run(RecDefault::any(), opt_some()); }
			holds q_rec_opt_none [kani::unwind(17)] { $run(RecDefault::any(), opt_none()); }
			holds q_rec_opt_vec [kani::unwind(17)] { $run(RecDefault::any(), opt_vec()); }
			holds q_rec_arr_box [kani::unwind(17)] { $run(RecPacked::any(), arr_box()); }
			holds q_rec_tuple [kani::unwind(17)] { $run(RecDefault::any(), tuple()); }
			holds q_rec_vec_vec [kani::unwind(17)] { $run(RecPacked::any(), vec_vec()); }
			holds q_rec_vec_box [kani::unwind(17)] { $run(RecWide::any(), vec_box()); }
			holds q_rec_vec_str [kani::unwind(17)] { $run(RecDefault::any(), vec_str()); }
			holds q_rec_named [kani::unwind(17)] { $run(RecDefault::any(), named()); }
			holds q_rec_tup [kani::unwind(17)] { $run(RecPacked::any(), tup()); }
			holds q_rec_outer [kani::unwind(17)] { $run(RecDefault::any(), outer()); }
			holds q_rec_zsts [kani::unwind(17)] { $run(RecDefault::any(), zsts()); }
			holds q_rec_aligned [kani::unwind(17)] { $run(RecWide::any(), aligned()); }
			holds q_rec_vec_aligned [kani::unwind(17)] { $run(RecWide::any(), vec_aligned()); }
			holds q_rec_list [kani::unwind(17)] { $run(RecDefault::any(), list2()); }
			holds q_rec_choice_none [kani::unwind(17)] { $run(RecDefault::any(), choice_none()); }
			holds q_rec_choice_boxed [kani::unwind(17)] { $run(RecDefault::any(), choice_boxed()); }
			holds q_rec_choice_fields [kani::unwind(17)] { $run(RecPacked::any(), choice_fields()); }
			holds q_rec_choice_nested [kani::unwind(17)] { $run(RecDefault::any(), choice_nested()); }
			holds q_rec_small_box3 [kani::unwind(17)] { $run(RecSmall::any(), box3()); }
			holds q_rec_small_tuple [kani::unwind(17)] { $run(RecSmall::any(), tuple()); }
			holds q_rec_limited_vec_str [kani::unwind(17)] { $run(RecLimited::any(), vec_str()); }
			holds q_rec_limited_named [kani::unwind(17)] { $run(RecLimited::any(), named()); }
			holds q_rec_large_many [kani::unwind(17)] { $run(RecDefault::any(), many()); }
			holds q_rec_large_bytes40 [kani::unwind(42)] { $run(RecDefault::any(), bytes40()); }
			holds q_rec_large_box_matrix [kani::unwind(17)] { $run(RecLimited::any(), box_matrix()); }
			holds q_rec_large_vec_pairs [kani::unwind(17)] { $run(RecPacked::any(), vec_pairs()); }
			holds q_rec_large_vec_box8 [kani::unwind(17)] { $run(RecDefault::any(), vec_box8()); }
			holds q_rec_large_list4 [kani::unwind(17)] { $run(RecWide::any(), list4()); }
			holds q_rec_large_twelve [kani::unwind(17)] { $run(RecPacked::any(), twelve()); }
			holds q_rec_large_deep [kani::unwind(17)] { $run(RecDefault::any(), deep()); }
			holds q_rec_large_choices [kani::unwind(17)] { $run(RecDefault::any(), choices()); }
			holds q_rec_far_text_300 [kani::unwind(17)] { $run(RecSmall::any_far(), far_text(300)); }
			holds q_rec_far_text_70000 [kani::unwind(17)] { $run(RecPacked::any_far(), far_text(70_001)); }
			holds q_rec_far_text_5g [kani::unwind(17)] { $run(RecDefault::any_far(), far_text((5 << 30) + 3)); }
			holds q_rec_far_vec_260 [kani::unwind(263)] { $run(RecDefault::any(), far_vec()); }
			holds q_rec_far_texts [kani::unwind(17)] { $run(RecLimited::any_far(), far_texts(1 << 30)); }
		}
	};
}
pub(crate) use rec_harnesses;

/// Fewer of them.
macro_rules! rec_few_harnesses {
	($run:ident) => {
		crate::harnesses! {
			holds q_rec_u8 [kani::unwind(17)] { $run(RecDefault::any(), u8_()); }
			holds q_rec_box_u128 [kani::unwind(17)] { $run(RecPacked::any(), box_u128()); }
			holds q_rec_box3 [kani::unwind(17)] { $run(RecWide::any(), box3()); }
			holds q_rec_vec_empty [kani::unwind(17)] { $run(RecDefault::any(), vec_empty_cap()); }
			holds q_rec_str [kani::unwind(17)] { $run(RecDefault::any(), str5()); }
			holds q_rec_arr_box [kani::unwind(17)] { $run(RecPacked::any(), arr_box()); }
			holds q_rec_vec_box [kani::unwind(17)] { $run(RecWide::any(), vec_box()); }
			holds q_rec_vec_str [kani::unwind(17)] { $run(RecDefault::any(), vec_str()); }
			holds q_rec_named [kani::unwind(17)] { $run(RecDefault::any(), named()); }
			holds q_rec_zsts [kani::unwind(17)] { $run(RecDefault::any(), zsts()); }
			holds q_rec_list [kani::unwind(17)] { $run(RecDefault::any(), list2()); }
			holds q_rec_choice_fields [kani::unwind(17)] { $run(RecPacked::any(), choice_fields()); }
		}
	};
}
pub(crate) use rec_few_harnesses;
