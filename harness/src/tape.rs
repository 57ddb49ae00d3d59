//! Records the sequence of visits to probes and of blocks pushed to storage, to be
//! compared with the sequence a value calls for.

use std::mem;

use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::{ContiguousStorage, RandomAccessStorage, Storage},
	Serialize, SerializeWith, Serializer,
};

pub const EVENTS: usize = 100;

/// What happened: visit (`align` is 0, `size` says to what) or push.
#[derive(Clone, Copy)]
pub struct Event {
	pub addr: usize,
	pub size: usize,
	pub align: usize,
}

static mut LOG: [Event; EVENTS] = [Event { addr: 0x6c6f67, size: 0, align: 0 }; EVENTS];
/// Initial contents must not be those of any constant: Kani gives constants and statics
/// with equal contents the same memory, so that changing the one changes the other.
static mut LEN: Len = Len { n: 0, _unlike: 0x6c656e_6f66_6c6f67 };
struct Len {
	n: usize,
	_unlike: usize,
}

pub fn event(addr: usize, size: usize, align: usize) {
	unsafe {
		assert!(LEN.n < EVENTS, "harness: too many events");
		LOG[LEN.n] = Event { addr, size, align };
		LEN.n += 1;
	}
}

/// Compares what happened with what should have.
pub struct Checker {
	n: usize,
}
impl Checker {
	fn next(&mut self) -> Event {
		assert!(self.n < unsafe { LEN.n }, "something is not visited or not pushed");
		self.n += 1;
		unsafe { LOG[self.n - 1] }
	}
	pub fn visit<T>(&mut self, what: &T, id: usize) {
		let e = self.next();
		assert!(e.align == 0, "pushed where something is to be visited");
		assert!(e.size == id && e.addr == what as *const T as usize, "visited something else, or in wrong order");
	}
	pub fn push<T>(&mut self, from: *const T, len: usize) {
		let e = self.next();
		assert!(e.align != 0, "visited where something is to be pushed");
		assert!(e.align == mem::align_of::<T>() && e.addr == from as usize && e.size == len * mem::size_of::<T>(), "pushed something else, or in wrong order");
	}
}

impl Checker {
	pub fn done(&self) {
		assert!(self.n == unsafe { LEN.n }, "something is visited or pushed which should not be");
	}
}

/// What should happen after the memory of a value has been pushed.
pub trait Expect {
	fn expect(&self, c: &mut Checker);
}

/// Storage which only notes what is pushed. Positions are concrete.
pub struct Tape {
	pos: usize,
}
pub const TAPE_BASE: usize = 0x5555_0000_0000_1000;
impl Storage for Tape {
	const STORAGE_ALIGNMENT: usize = 64;
	const MAX_VALUE_ALIGNMENT: usize = 32;
	const VALUE_ALIGNMENT: usize = 8;
	const MAX_CAPACITY: usize = ser_raw::util::aligned_max_capacity(64);
	fn new() -> Self {
		Tape { pos: 0 }
	}
	unsafe fn with_capacity_unchecked(_: usize) -> Self {
		Tape { pos: 0 }
	}
	fn capacity(&self) -> usize {
		Self::MAX_CAPACITY
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, pos: usize) {
		self.pos = pos;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		if size != 0 {
			event(slice.as_ptr() as usize, size, mem::align_of::<T>());
		}
		self.pos += size;
	}
	fn reserve(&mut self, _: usize) {}
	fn shrink_to_fit(&mut self) {}
}
impl RandomAccessStorage for Tape {
	unsafe fn write_slice<T>(&mut self, _: usize, _: &[T]) {}
	// What is written over goes nowhere, and what is read is nothing in particular
	unsafe fn read<T>(&self, _: usize) -> &T {
		&*somewhere()
	}
	unsafe fn read_mut<T>(&mut self, _: usize) -> &mut T {
		&mut *somewhere()
	}
	unsafe fn ptr(&self, _: usize) -> *const u8 {
		somewhere::<Room>() as *const u8
	}
	unsafe fn mut_ptr(&mut self, _: usize) -> *mut u8 {
		somewhere::<Room>() as *mut u8
	}
}
/// Room for whatever is written over.
#[repr(C, align(64))]
struct Room([u8; 64]);
fn somewhere<T>() -> *mut T {
	Box::leak(Box::new(mem::MaybeUninit::<T>::zeroed())).as_mut_ptr()
}
impl ContiguousStorage for Tape {
	fn as_ptr(&self) -> *const u8 {
		TAPE_BASE as *const u8
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		TAPE_BASE as *mut u8
	}
}

macro_rules! tapes {
	($($name:ident $kind:ident { $($attr:ident $field:ident: $t:ty = $init:expr),* })*) => {$(
		#[derive(Serializer)]
		#[ser_type($kind)]
		pub struct $name {
			#[ser_storage(Tape)]
			storage: Tape,
			$( #[$attr] $field: $t, )*
		}
		impl $name {
			pub fn new() -> Self {
				$name { storage: Tape::new(), $( $field: $init ),* }
			}
		}
	)*};
}
tapes! {
	PureTape pure_copy {}
	TrackTape pos_tracking { ser_pos_mapping map: PosMapping = PosMapping::dummy() }
	OffsetTape ptr_offset { ser_pos_mapping map: PosMapping = PosMapping::dummy() }
	FullTape complete { ser_pos_mapping map: PosMapping = PosMapping::dummy(), ser_ptrs ptrs: Ptrs = Ptrs::new() }
}

pub fn start() {
	unsafe {
		LEN.n = 0;
	}
}
pub fn checker() -> Checker {
	Checker { n: 0 }
}

fn run<T: Serialize<S> + Expect, S: Serializer>(value: &T, mut serializer: S) {
	start();
	serializer.serialize_value(value);
	let mut c = checker();
	if mem::size_of::<T>() != 0 {
		c.push(value, 1);
	}
	value.expect(&mut c);
	c.done();
	mem::forget(serializer);
}

/// Serialize with each kind of serializer.
pub fn visits<T>(value: T)
where T: Expect + Serialize<PureTape> + Serialize<TrackTape> + Serialize<OffsetTape> + Serialize<FullTape> {
	let value = mem::ManuallyDrop::new(value);
	run(&*value, PureTape::new());
	run(&*value, TrackTape::new());
	run(&*value, OffsetTape::new());
	run(&*value, FullTape::new());
}
/// Cheaper.
pub fn visits_two<T>(value: T)
where T: Expect + Serialize<PureTape> + Serialize<FullTape> {
	let value = mem::ManuallyDrop::new(value);
	run(&*value, PureTape::new());
	run(&*value, FullTape::new());
}

// Probes

macro_rules! probes {
	($($name:ident $id:literal ($($t:ty),*) $($repr:meta)?;)*) => {$(
		#[derive(Clone, Copy, Default)]
		$(#[$repr])?
		pub struct $name($(pub $t),*);
		impl<S: Serializer> Serialize<S> for $name {
			fn serialize_data(&self, _: &mut S) {
				event(self as *const Self as usize, $id, 0);
			}
		}
		impl Expect for $name {
			fn expect(&self, c: &mut Checker) {
				c.visit(self, $id);
			}
		}
	)*};
}
probes! {
	P 1 (u8);
	Q 2 (u64);
	Z 3 ();
	W 4 ([u8; 32]) repr(align(32));
	R 5 ([u16; 3]);
}

/// Serializes by proxy only.
#[derive(Clone, Copy)]
pub struct Foreign(pub u32);
pub struct Proxy;
impl<S: Serializer> SerializeWith<Foreign, S> for Proxy {
	fn serialize_data_with(value: &Foreign, _: &mut S) {
		event(value as *const Foreign as usize, 11, 0);
	}
}
impl Expect for Foreign {
	fn expect(&self, c: &mut Checker) {
		c.visit(self, 11);
	}
}
/// Serializes both ways, where by proxy is right.
#[derive(Clone, Copy)]
pub struct Both(pub u32);
impl<S: Serializer> Serialize<S> for Both {
	fn serialize_data(&self, _: &mut S) {
		event(self as *const Self as usize, 13, 0);
	}
}
impl<S: Serializer> SerializeWith<Both, S> for Proxy {
	fn serialize_data_with(value: &Both, _: &mut S) {
		event(value as *const Both as usize, 12, 0);
	}
}
impl Expect for Both {
	fn expect(&self, c: &mut Checker) {
		c.visit(self, 12);
	}
}
/// Reference, by proxy.
impl<'a, S: Serializer> SerializeWith<&'a u32, S> for Proxy {
	fn serialize_data_with(value: &&'a u32, _: &mut S) {
		event(*value as *const u32 as usize, 14, 0);
	}
}
impl<'a> Expect for &'a u32 {
	fn expect(&self, c: &mut Checker) {
		c.visit(*self, 14);
	}
}

macro_rules! expect_none {
	($($t:ty),*) => {$( impl Expect for $t { fn expect(&self, _: &mut Checker) {} } )*};
}
expect_none!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, ());
use std::num;
expect_none!(num::NonZeroU8, num::NonZeroU16, num::NonZeroU32, num::NonZeroU64, num::NonZeroU128, num::NonZeroUsize);
expect_none!(num::NonZeroI8, num::NonZeroI16, num::NonZeroI32, num::NonZeroI64, num::NonZeroI128, num::NonZeroIsize);

impl<T: Expect> Expect for Box<T> {
	fn expect(&self, c: &mut Checker) {
		if mem::size_of::<T>() != 0 {
			c.push(&**self, 1);
			(**self).expect(c);
		}
	}
}
impl<T: Expect> Expect for Vec<T> {
	fn expect(&self, c: &mut Checker) {
		if mem::size_of::<T>() != 0 && self.len() != 0 {
			c.push(self.as_ptr(), self.len());
			for i in 0..self.len() {
				self[i].expect(c);
			}
		}
	}
}
impl Expect for String {
	fn expect(&self, c: &mut Checker) {
		if self.len() != 0 {
			c.push(self.as_ptr(), self.len());
		}
	}
}
impl<T: Expect> Expect for Option<T> {
	fn expect(&self, c: &mut Checker) {
		if let Some(x) = self {
			x.expect(c);
		}
	}
}
impl<T: Expect, const N: usize> Expect for [T; N] {
	fn expect(&self, c: &mut Checker) {
		let mut i = 0;
		while i < N {
			self[i].expect(c);
			i += 1;
		}
	}
}
macro_rules! expect_tuples {
	(() $($done:tt)*) => {};
	(($t:ident $i:tt $($rest:tt)*) $($done:ident $j:tt)*) => {
		impl<$($done: Expect,)* $t: Expect> Expect for ($($done,)* $t,) {
			fn expect(&self, c: &mut Checker) {
				$( self.$j.expect(c); )*
				self.$i.expect(c);
			}
		}
		expect_tuples!(($($rest)*) $($done $j)* $t $i);
	};
}
expect_tuples!((A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11 M 12 N 13 O 14 P_ 15 Q_ 16 R_ 17 S 18 T 19 U 20 V 21
	W_ 22 X 23 Y 24 Z_ 25 AA 26 AB 27 AC 28 AD 29 AE 30 AF 31));

/// Implement `Expect` for structs.
macro_rules! expect_struct {
	($t:ty { $($f:tt),* }) => {
		impl crate::tape::Expect for $t {
			fn expect(&self, c: &mut crate::tape::Checker) {
				let _ = &c;
				$( crate::tape::Expect::expect(&self.$f, c); )*
			}
		}
	};
}
pub(crate) use expect_struct;
