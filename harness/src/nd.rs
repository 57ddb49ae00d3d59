//! Nondeterminism shim.
//!
//! Under Kani every `any()` is a fresh symbolic variable, `assume` constrains
//! the search and `reached` is the vacuity witness of a harness.
//! Natively (replay of a counterexample) the same calls read back, in order, the
//! concrete values which the solver found.

#[cfg(kani)]
mod imp {
	pub trait Nd: kani::Arbitrary {}
	impl<T: kani::Arbitrary> Nd for T {}

	#[inline(always)]
	pub fn any<T: Nd>() -> T {
		kani::any()
	}

	#[inline(always)]
	pub fn assume(cond: bool) {
		kani::assume(cond)
	}
}

#[cfg(not(kani))]
mod imp {
	use std::cell::RefCell;

	thread_local! {
		static VALS: RefCell<(usize, Vec<Vec<u8>>)> = RefCell::new((0, Vec::new()));
	}

	/// Exit status of the replay binary when the values break an assumption.
	pub const ASSUME_BROKEN: i32 = 77;

	pub fn load(vals: Vec<Vec<u8>>) {
		VALS.with(|v| *v.borrow_mut() = (0, vals));
	}

	/// Next recorded value. Values the solver left out of its trace do not
	/// influence the outcome, so they are read as 0.
	fn next(size: usize) -> [u8; 16] {
		VALS.with(|v| {
			let mut v = v.borrow_mut();
			let i = v.0;
			v.0 += 1;
			let mut out = [0u8; 16];
			if let Some(bytes) = v.1.get(i) {
				if bytes.len() != size {
					eprintln!("replay: value {} has {} bytes, expected {}", i, bytes.len(), size);
					std::process::exit(78);
				}
				out[..size].copy_from_slice(bytes);
			}
			out
		})
	}

	pub trait Nd {
		fn nd() -> Self;
	}
	macro_rules! nd_int {
		($($t:ty),*) => {$(
			impl Nd for $t {
				fn nd() -> Self {
					const N: usize = std::mem::size_of::<$t>();
					let mut b = [0u8; N];
					b.copy_from_slice(&next(N)[..N]);
					<$t>::from_le_bytes(b)
				}
			}
		)*};
	}
	nd_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
	impl Nd for bool {
		fn nd() -> Self {
			next(1)[0] & 1 == 1
		}
	}

	pub fn any<T: Nd>() -> T {
		T::nd()
	}

	pub fn assume(cond: bool) {
		if !cond {
			eprintln!("replay: assumption broken");
			std::process::exit(ASSUME_BROKEN);
		}
	}
}

pub use imp::*;

/// Array of arbitrary values.
#[inline(always)]
pub fn any_array<T: Nd + Copy + Default, const N: usize>() -> [T; N] {
	let mut a = [T::default(); N];
	let mut i = 0;
	while i < N {
		a[i] = any();
		i += 1;
	}
	a
}

/// Arbitrary `usize` in `lo..=hi`.
#[inline(always)]
pub fn any_in(lo: usize, hi: usize) -> usize {
	let x: usize = any();
	assume(x >= lo && x <= hi);
	x
}

/// Marks the end of a harness: must be reachable, or the harness is vacuous.
macro_rules! reached {
	() => {
		#[cfg(kani)]
		kani::cover!(true, "reached end");
	};
}
/// Marks a point a must-panic harness may not reach.
macro_rules! returned {
	() => {
		#[cfg(kani)]
		kani::cover!(true, "returned");
	};
}
/// Additional vacuity witness.
#[allow(unused_macros)]
macro_rules! witness {
	($e:expr, $msg:literal) => {
		#[cfg(kani)]
		kani::cover!($e, $msg);
	};
}
pub(crate) use {reached, returned};
#[allow(unused_imports)]
pub(crate) use witness;
