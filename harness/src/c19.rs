//! C19: random access reads and writes exactly the addressed bytes.

use std::mem::{self, ManuallyDrop};

use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

use crate::{filled::*, harnesses, nd};

/// Position of a `T` within the first `end` bytes.
fn place<T>(len: usize, end: usize) -> usize {
	let pos: usize = nd::any();
	nd::assume(pos <= end && end - pos >= mem::size_of::<T>() * len);
	nd::assume(pos & (mem::align_of::<T>() - 1) == 0);
	pos
}

/// Storage is as before except for `size` bytes at `at`, which are of `values`.
fn only<S: Storage + ContiguousStorage, T>(s: &S, bytes: &Bytes, state: (usize, usize), at: usize, values: &[T]) {
	assert!((s.pos(), s.capacity()) == state, "position or capacity is changed");
	let size = mem::size_of::<T>() * values.len();
	let i = nd::any_in(0, CAP - 1);
	let expect = if i >= at && i < at + size { byte_of(values, i - at) } else { bytes.0[i] };
	assert!(byte(s, i) == expect, "wrong bytes after write");
}

/// Write of `N` values anywhere within capacity.
fn write<S: Storage + ContiguousStorage, T: Copy, const N: usize>(write: fn(&mut S, usize, &[T; N])) {
	let (s, bytes) = filled::<S>(&[0]);
	let mut s = ManuallyDrop::new(s);
	let values: [T; N] = any_values();
	let copy = values;
	let at = place::<T>(N, CAP);
	let state = (s.pos(), s.capacity());
	write(&mut *s, at, &values);
	only(&*s, &bytes, state, at, &copy);
	if mem::size_of::<[T; N]>() > 0 {
		let i = nd::any_in(0, mem::size_of::<[T; N]>() - 1);
		assert!(byte_of(&values, i) == byte_of(&copy, i), "source of write is modified");
	}
}
fn one<S: RandomAccessStorage + ContiguousStorage, T: Copy>() {
	write::<S, T, 1>(|s, pos, v| unsafe { s.write(pos, &v[0]) })
}
fn slice<S: RandomAccessStorage + ContiguousStorage, T: Copy, const N: usize>() {
	write::<S, T, N>(|s, pos, v| unsafe { s.write_slice(pos, v) })
}
fn through<S: RandomAccessStorage + ContiguousStorage, T: Copy>() {
	write::<S, T, 1>(|s, pos, v| {
		// Values are read only where they are present
		nd::assume(pos + mem::size_of::<T>() <= s.pos());
		unsafe { *s.read_mut::<T>(pos) = v[0] }
	})
}
fn pointer<S: RandomAccessStorage + ContiguousStorage, T: Copy>() {
	write::<S, T, 1>(|s, pos, v| unsafe { (s.mut_ptr(pos) as *mut T).write(v[0]) })
}
fn base<S: RandomAccessStorage + ContiguousStorage, T: Copy>() {
	write::<S, T, 1>(|s, pos, v| unsafe { (s.as_mut_ptr().add(pos) as *mut T).write(v[0]) })
}

/// What is read is what is there.
fn read<S: RandomAccessStorage + ContiguousStorage, T: Copy>() {
	let (s, bytes) = filled::<S>(&[0]);
	let mut s = ManuallyDrop::new(s);
	let at = place::<T>(1, s.pos());
	let state = (s.pos(), s.capacity());
	if mem::size_of::<T>() > 0 {
		let i = nd::any_in(0, mem::size_of::<T>() - 1);
		let copy = unsafe { *s.read::<T>(at) };
		assert!(byte_of(&[copy], i) == bytes.0[at + i], "value read is wrong");
		let copy = unsafe { *s.read_mut::<T>(at) };
		assert!(byte_of(&[copy], i) == bytes.0[at + i], "value read is wrong");
	}
	let p = s.as_ptr();
	unsafe {
		assert!(s.read::<T>(at) as *const T as *const u8 == p.wrapping_add(at), "reference addresses something else");
		assert!(s.read_mut::<T>(at) as *mut T as *const u8 == p.wrapping_add(at), "reference addresses something else");
	}
	only::<_, u8>(&*s, &bytes, state, 0, &[]);
}

/// Pointers to every position, including the end.
fn pointers<S: RandomAccessStorage + ContiguousStorage>() {
	let (s, bytes) = filled::<S>(&[0]);
	let mut s = ManuallyDrop::new(s);
	let state = (s.pos(), s.capacity());
	let at = nd::any_in(0, s.capacity());
	let p = s.as_ptr();
	assert!(s.as_mut_ptr() as *const u8 == p, "pointers to start differ");
	unsafe {
		assert!(s.ptr(at) == p.wrapping_add(at), "pointer addresses something else");
		assert!(s.mut_ptr(at) as *const u8 == p.wrapping_add(at), "pointer addresses something else");
		if at < CAP {
			assert!(*s.ptr(at) == bytes.0[at], "pointer addresses something else");
			assert!(*s.mut_ptr(at) == bytes.0[at], "pointer addresses something else");
		}
	}
	only::<_, u8>(&*s, &bytes, state, 0, &[]);
}

/// Of two writes the later one counts, also after growth.
fn last<S: RandomAccessStorage + ContiguousStorage, T: Copy, U: Copy>(moves: &'static [usize]) {
	let (s, bytes) = filled::<S>(moves);
	let mut s = ManuallyDrop::new(s);
	unsafe { s.set_pos(CAP) };
	let (a, b): ([T; 1], [U; 1]) = (any_values(), any_values());
	let (at, to) = (place::<T>(1, CAP), place::<U>(1, CAP));
	unsafe {
		s.write(at, &a[0]);
		s.write(to, &b[0]);
		s.reserve(32);
	}
	let i = nd::any_in(0, CAP - 1);
	let (size_a, size_b) = (mem::size_of::<T>(), mem::size_of::<U>());
	let expect = if i >= to && i < to + size_b {
		byte_of(&b, i - to)
	} else if i >= at && i < at + size_a {
		byte_of(&a, i - at)
	} else {
		bytes.0[i]
	};
	assert!(byte(&*s, i) == expect, "wrong bytes after writes");
	if size_b > 0 {
		let k = nd::any_in(0, size_b - 1);
		let out = unsafe { *s.read::<U>(to) };
		assert!(byte_of(&[out], k) == byte_of(&b, k), "value read is not the one last written");
	}
}

/// A large write: exactly these bytes.
fn large<S: RandomAccessStorage + ContiguousStorage, T: Copy>(len: usize, at: usize, write: unsafe fn(&mut S, usize, &[T])) {
	let size = mem::size_of::<T>() * len;
	let before = plenty(PLENTY);
	let mut s = ManuallyDrop::new(S::with_capacity(PLENTY));
	unsafe {
		std::ptr::copy_nonoverlapping(before.0.as_ptr(), s.as_mut_ptr(), PLENTY);
		s.set_pos(64);
	}
	let mut source = plenty(size);
	source.0[size - 1] = nd::any();
	unsafe { write(&mut *s, at, source.slice::<T>(len)) };
	assert!(s.pos() == 64, "position is changed");
	let i = nd::any_in(0, PLENTY - 1);
	let expect = if i >= at && i < at + size { source.0[i - at] } else { before.0[i] };
	assert!(byte(&*s, i) == expect, "wrong bytes after write");
}
unsafe fn many<S: RandomAccessStorage, T>(s: &mut S, pos: usize, values: &[T]) {
	s.write_slice(pos, values)
}
/// The first of them as one value of `N`.
unsafe fn whole<S: RandomAccessStorage, T: Copy, const N: usize>(s: &mut S, pos: usize, values: &[T]) {
	assert!(values.len() == N);
	s.write(pos, &*(values.as_ptr() as *const [T; N]))
}
unsafe fn whole_through<S: RandomAccessStorage, T: Copy, const N: usize>(s: &mut S, pos: usize, values: &[T]) {
	assert!(values.len() == N);
	s.set_pos(PLENTY);
	*s.read_mut::<[T; N]>(pos) = *(values.as_ptr() as *const [T; N]);
	let i = nd::any_in(0, mem::size_of::<[T; N]>() - 1);
	assert!(byte_of(s.read::<[T; N]>(pos), i) == byte_of(values, i), "value read is wrong");
	s.set_pos(64);
}

harnesses! {
	sholds q_large_default_u8_300 [kani::unwind(310)] { large::<FDefault, u8>(300, 13, many) }
	sholds q_large_packed_u8_1027 [kani::unwind(1030)] { large::<FPacked, u8>(1027, 1053, many) }
	sholds q_large_mixed_u16_601 [kani::unwind(610)] { large::<FMixed, u16>(601, 62, many) }
	sholds q_large_wide_u64_131 [kani::unwind(140)] { large::<FWide, u64>(131, 0, many) }
	sholds q_large_default_d3_43 [kani::unwind(140)] { large::<FDefault, D3>(43, 1048, many) }
	sholds q_large_default_whole_u8_261 [kani::unwind(310)] { large::<FDefault, u8>(261, 13, whole::<_, _, 261>) }
	sholds q_large_packed_whole_u32_259 [kani::unwind(310)] { large::<FPacked, u32>(259, 12, whole::<_, _, 259>) }
	sholds q_large_default_through_u16_515 [kani::unwind(520)] { large::<FDefault, u16>(515, 1050, whole_through::<_, _, 515>) }
	sholds q_one_default_u8 [kani::unwind(50)] { one::<FDefault, u8>() }
	sholds q_one_default_u64 [kani::unwind(50)] { one::<FDefault, u64>() }
	sholds q_one_packed_u16 [kani::unwind(50)] { one::<FPacked, u16>() }
	sholds q_one_packed_b5 [kani::unwind(50)] { one::<FPacked, B5>() }
	sholds q_one_packed_a16 [kani::unwind(50)] { one::<FPacked, A16>() }
	sholds q_one_mixed_u32 [kani::unwind(50)] { one::<FMixed, u32>() }
	sholds q_one_mixed_h3 [kani::unwind(50)] { one::<FMixed, H3>() }
	sholds q_one_wide_u128 [kani::unwind(50)] { one::<FWide, u128>() }
	sholds q_one_small_d3 [kani::unwind(50)] { one::<FSmall, D3>() }
	sholds q_one_tiny_u8 [kani::unwind(50)] { one::<FTiny, u8>() }
	sholds q_one_default_unit [kani::unwind(50)] { one::<FDefault, ()>() }
	sholds q_through_default_u8 [kani::unwind(50)] { through::<FDefault, u8>() }
	sholds q_through_default_u64 [kani::unwind(50)] { through::<FDefault, u64>() }
	sholds q_through_packed_u16 [kani::unwind(50)] { through::<FPacked, u16>() }
	sholds q_through_packed_b5 [kani::unwind(50)] { through::<FPacked, B5>() }
	sholds q_through_packed_a16 [kani::unwind(50)] { through::<FPacked, A16>() }
	sholds q_through_mixed_u32 [kani::unwind(50)] { through::<FMixed, u32>() }
	sholds q_through_mixed_h3 [kani::unwind(50)] { through::<FMixed, H3>() }
	sholds q_through_wide_u128 [kani::unwind(50)] { through::<FWide, u128>() }
	sholds q_through_small_d3 [kani::unwind(50)] { through::<FSmall, D3>() }
	sholds q_through_tiny_u8 [kani::unwind(50)] { through::<FTiny, u8>() }
	sholds q_through_default_unit [kani::unwind(50)] { through::<FDefault, ()>() }
	sholds q_read_default_u8 [kani::unwind(50)] { read::<FDefault, u8>() }
	sholds q_read_default_u64 [kani::unwind(50)] { read::<FDefault, u64>() }
	sholds q_read_packed_u16 [kani::unwind(50)] { read::<FPacked, u16>() }
	sholds q_read_packed_b5 [kani::unwind(50)] { read::<FPacked, B5>() }
	sholds q_read_packed_a16 [kani::unwind(50)] { read::<FPacked, A16>() }
	sholds q_read_mixed_u32 [kani::unwind(50)] { read::<FMixed, u32>() }
	sholds q_read_mixed_h3 [kani::unwind(50)] { read::<FMixed, H3>() }
	sholds q_read_wide_u128 [kani::unwind(50)] { read::<FWide, u128>() }
	sholds q_read_small_d3 [kani::unwind(50)] { read::<FSmall, D3>() }
	sholds q_read_tiny_u8 [kani::unwind(50)] { read::<FTiny, u8>() }
	sholds q_read_default_unit [kani::unwind(50)] { read::<FDefault, ()>() }
	sholds q_pointer_default_u8 [kani::unwind(50)] { pointer::<FDefault, u8>() }
	sholds q_pointer_default_u64 [kani::unwind(50)] { pointer::<FDefault, u64>() }
	sholds q_pointer_packed_b5 [kani::unwind(50)] { pointer::<FPacked, B5>() }
	sholds q_pointer_packed_a16 [kani::unwind(50)] { pointer::<FPacked, A16>() }
	sholds q_pointer_mixed_u32 [kani::unwind(50)] { pointer::<FMixed, u32>() }
	sholds q_pointer_small_d3 [kani::unwind(50)] { pointer::<FSmall, D3>() }
	sholds q_pointer_tiny_u8 [kani::unwind(50)] { pointer::<FTiny, u8>() }
	sholds q_slice_default_u8_0 [kani::unwind(50)] { slice::<FDefault, u8, 0>() }
	sholds q_slice_default_u16_3 [kani::unwind(50)] { slice::<FDefault, u16, 3>() }
	sholds q_slice_packed_u8_7 [kani::unwind(50)] { slice::<FPacked, u8, 7>() }
	sholds q_slice_packed_u64_2 [kani::unwind(50)] { slice::<FPacked, u64, 2>() }
	sholds q_slice_mixed_b5_3 [kani::unwind(50)] { slice::<FMixed, B5, 3>() }
	sholds q_slice_wide_u32_4 [kani::unwind(50)] { slice::<FWide, u32, 4>() }
	sholds q_slice_small_u8_17 [kani::unwind(50)] { slice::<FSmall, u8, 17>() }
	sholds q_slice_default_unit_2 [kani::unwind(50)] { slice::<FDefault, (), 2>() }
	sholds q_slice_packed_h3_2 [kani::unwind(50)] { slice::<FPacked, H3, 2>() }
	sholds q_pointers_default [kani::unwind(50)] { pointers::<FDefault>() }
	sholds q_pointers_packed [kani::unwind(50)] { pointers::<FPacked>() }
	sholds q_pointers_mixed [kani::unwind(50)] { pointers::<FMixed>() }
	sholds q_pointers_wide [kani::unwind(50)] { pointers::<FWide>() }
	sholds q_pointers_small [kani::unwind(50)] { pointers::<FSmall>() }
	sholds q_pointers_tiny [kani::unwind(50)] { pointers::<FTiny>() }
	sholds q_base_default_u32 [kani::unwind(50)] { base::<FDefault, u32>() }
	sholds q_base_packed_b5 [kani::unwind(50)] { base::<FPacked, B5>() }
	sholds q_last_default_u64_u16_stay [kani::unwind(50)] { last::<FDefault, u64, u16>(&[0, 0]) }
	sholds q_last_default_u64_u16_move [kani::unwind(50)] { last::<FDefault, u64, u16>(&[0, 1]) }
	sholds q_last_packed_b5_u32_stay [kani::unwind(50)] { last::<FPacked, B5, u32>(&[0, 0]) }
	sholds q_last_packed_b5_u32_move [kani::unwind(50)] { last::<FPacked, B5, u32>(&[0, 1]) }
	sholds q_last_mixed_u8_u64_stay [kani::unwind(50)] { last::<FMixed, u8, u64>(&[0, 0]) }
	sholds q_last_mixed_u8_u64_move [kani::unwind(50)] { last::<FMixed, u8, u64>(&[0, 1]) }
	sholds q_last_small_u32_u32_stay [kani::unwind(50)] { last::<FSmall, u32, u32>(&[0, 0]) }
	sholds q_last_small_u32_u32_move [kani::unwind(50)] { last::<FSmall, u32, u32>(&[0, 1]) }
	sholds q_last_wide_u16_a16_stay [kani::unwind(50)] { last::<FWide, u16, A16>(&[0, 0]) }
	sholds q_last_wide_u16_a16_move [kani::unwind(50)] { last::<FWide, u16, A16>(&[0, 1]) }
}
