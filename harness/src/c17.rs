//! C17: alignment arithmetic is exact over its whole domain.

use ser_raw::util::{align_up_to, aligned_max_capacity, aligned_max_u32_capacity, is_aligned_to};

use crate::{harnesses, nd};

/// Any power of 2.
fn power() -> usize {
	let shift: u32 = nd::any();
	nd::assume(shift < usize::BITS);
	1 << shift
}

fn not_power() -> usize {
	let x: usize = nd::any();
	nd::assume(x == 0 || x & (x - 1) != 0);
	x
}

/// `x` is a multiple of `2^n` if its low `n` bits are 0.
fn multiple(x: usize, p: usize) -> bool {
	x.trailing_zeros() >= p.trailing_zeros()
}

fn up() {
	let (pos, p) = (nd::any::<usize>(), power());
	// Documented condition
	nd::assume(pos.checked_add(p).is_some());
	let x = align_up_to(pos, p);
	assert!(multiple(x, p), "not a multiple of alignment");
	assert!(x >= pos, "below position");
	assert!(x - pos < p, "not the smallest");
}

fn up_spec() {
	// No multiple lies between: for any y
	let (pos, p, y) = (nd::any::<usize>(), power(), nd::any::<usize>());
	nd::assume(pos <= isize::MAX as usize && p <= isize::MAX as usize / 2 + 1);
	nd::assume(y >= pos && multiple(y, p));
	assert!(align_up_to(pos, p) <= y, "not the smallest");
}

fn aligned() {
	let (pos, p) = (nd::any::<usize>(), power());
	assert!(is_aligned_to(pos, p) == multiple(pos, p), "wrong answer");
}

fn max() {
	let p = power();
	nd::assume(p < isize::MAX as usize);
	let x = aligned_max_capacity(p);
	// Largest `size` such that `size` rounded up to `align` does not exceed `isize::MAX`
	// is a multiple of `align`
	assert!(multiple(x, p), "not a multiple of alignment");
	assert!(x <= isize::MAX as usize, "exceeds isize::MAX");
	assert!(isize::MAX as usize - x < p, "not the largest");
	assert!(std::alloc::Layout::from_size_align(x, p).is_ok(), "not a valid allocation");
	assert!(std::alloc::Layout::from_size_align(x + 1, p).is_err(), "a larger allocation is valid");
}

fn max_u32() {
	let p = power();
	nd::assume(p < u32::MAX as usize);
	let x = aligned_max_u32_capacity(p);
	assert!(x == 1 << 32, "not the largest capacity with 32-bit positions");
	assert!(multiple(x, p), "not a multiple of alignment");
}

harnesses! {
	holds q_up [] { up() }
	holds q_up_spec [] { up_spec() }
	holds q_aligned [] { aligned() }
	holds q_max [] { max() }
	holds q_max_u32 [] { max_u32() }
	panics p_max_not_power [] { aligned_max_capacity(not_power()); }
	panics p_max_zero [] { aligned_max_capacity(0); }
	panics p_max_large [] { let a = nd::any::<usize>(); nd::assume(a >= isize::MAX as usize); aligned_max_capacity(a); }
	panics p_max_u32_not_power [] { aligned_max_u32_capacity(not_power()); }
	panics p_max_u32_zero [] { aligned_max_u32_capacity(0); }
	panics p_max_u32_large [] { let a = nd::any::<usize>(); nd::assume(a >= u32::MAX as usize); aligned_max_u32_capacity(a); }
}
