//! Symbolic harnesses for `ser_raw`.
//!
//! Each harness is a Kani proof under `cfg(kani)` and an ordinary function
//! otherwise, listed in its module's `TABLE`, so that a counterexample can be
//! replayed against a native build of the same code.
#![allow(dead_code, unused_unsafe, static_mut_refs)]
#![cfg_attr(not(kani), allow(unknown_lints))]

/// Define harnesses: `holds name [attrs] { body }` or `panics name [attrs] { body }`.
/// `sholds` and `spanics` are the same with the allocator stubbed by `hooks`.
macro_rules! harnesses {
	($($kind:ident $name:ident [$($attr:meta),*] $body:block)*) => {
		$( harnesses!(@one $kind $name [$($attr),*] $body); )*
		#[cfg(not(kani))]
		pub const TABLE: &[crate::Entry] = &[
			$( (concat!(module_path!(), "::", stringify!($name)), harnesses!(@kind $kind), $name), )*
		];
	};
	(@one holds $name:ident [$($attr:meta),*] $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		$(#[cfg_attr(kani, $attr)])*
		pub fn $name() {
			let () = $body;
			crate::nd::reached!();
		}
	};
	(@one panics $name:ident [$($attr:meta),*] $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		$(#[cfg_attr(kani, $attr)])*
		pub fn $name() {
			let () = $body;
			crate::nd::returned!();
		}
	};
	(@one sholds $name:ident [$($attr:meta),*] $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::hooks::stub_alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::hooks::stub_alloc_zeroed))]
		#[cfg_attr(kani, kani::stub(std::alloc::realloc, crate::hooks::stub_realloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::dealloc, crate::hooks::stub_dealloc))]
		$(#[cfg_attr(kani, $attr)])*
		pub fn $name() {
			let () = $body;
			crate::nd::reached!();
		}
	};
	(@one spanics $name:ident [$($attr:meta),*] $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::hooks::stub_alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::hooks::stub_alloc_zeroed))]
		#[cfg_attr(kani, kani::stub(std::alloc::realloc, crate::hooks::stub_realloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::dealloc, crate::hooks::stub_dealloc))]
		$(#[cfg_attr(kani, $attr)])*
		pub fn $name() {
			let () = $body;
			crate::nd::returned!();
		}
	};
	(@kind holds) => { crate::Kind::Holds };
	(@kind panics) => { crate::Kind::Panics };
	(@kind sholds) => { crate::Kind::Holds };
	(@kind spanics) => { crate::Kind::Panics };
}

pub(crate) use harnesses;

pub mod nd;
pub mod hooks;
pub mod filled;
pub mod kinds;
pub mod kit;
pub mod probe;
pub mod shapes;
pub mod rec;
pub mod state;
pub mod tape;

/// What a harness claims.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	/// Runs to completion without any failed check.
	Holds,
	/// Every run panics (in a build without debug assertions too).
	Panics,
}

pub type Entry = (&'static str, Kind, fn());

macro_rules! modules {
	($($f:literal $m:ident $($sub:ident)*;)*) => {
		$( #[cfg(feature = $f)] pub mod $m; )*

		/// Full name of each harness (`c01::q_u8`), what it claims, and the harness.
		#[cfg(not(kani))]
		pub fn table() -> Vec<(&'static str, Kind, fn())> {
			let mut all: Vec<(&'static str, Kind, fn())> = Vec::new();
			$(
				#[cfg(feature = $f)]
				{
					all.extend($m::TABLE.iter());
					$( all.extend($m::$sub::TABLE.iter()); )*
				}
			)*
			for e in all.iter_mut() {
				e.0 = e.0.trim_start_matches("harness::");
			}
			all
		}
	};
}

modules! {
	"c01" c01;
	"c02" c02;
	"c03" c03 rec;
	"c04" c04 rec;
	"c05" c05 rec;
	"c06" c06;
	"c07" c07 through;
	"c08" c08;
	"c09" c09;
	"c10" c10 rec;
	"c11" c11 variants declared_by_macro;
	"c12" c12;
	"c13" c13;
	"c14" c14;
	"c15" c15;
	"c16" c16;
	"c17" c17;
	"c19" c19;
	"c20" c20;
	"c22" c22;
	"c18" c18 offset copy track real asks names;
}
