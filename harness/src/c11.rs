//! C11: derived serialization visits each field exactly once, in order.

use ser_raw::{Serialize, Serializer};

use crate::{harnesses, kit::*, nd, tape::*};

fn p() -> P {
	P(nd::any())
}
fn q() -> Q {
	Q(nd::any())
}
fn r() -> R {
	R::default()
}
fn b() -> Box<P> {
	Box::new(p())
}
fn w() -> W {
	W::default()
}

macro_rules! named {
	($(#[$attr:meta])* $t:ident { $($f:ident: $ft:ty = $init:expr),* $(,)? }) => {
		$(#[$attr])*
		#[derive(Serialize)]
		#[allow(non_snake_case)]
		pub struct $t { $($f: $ft),* }
		impl $t {
			fn new() -> Self {
				$t { $($f: $init),* }
			}
		}
		expect_struct!($t { $($f),* });
	};
}

named!(One { only: Q = q() });
named!(Three { c: P = p(), a: Q = q(), b: R = r() });
named!(Same { z: P = p(), y: P = p(), x: P = p(), w: P = p() });
named!(#[repr(C)] InOrder { c: P = p(), a: Q = q(), b: R = r() });
named!(#[repr(align(32))] Aligned { c: P = p(), a: Q = q() });
named!(#[repr(transparent)] Transparent { a: Q = q(), z: Z = Z() });
named!(Empty {});
named!(Heaped { a: P = p(), b: Box<P> = b(), c: Q = q(), d: Vec<P> = vec_with_cap([p(), p()], 3), e: P = p() });
named!(Numbers { a: u8 = nd::any(), b: P = p(), c: u64 = nd::any(), d: Q = q(), e: bool = nd::any() });
named!(Clash {
	serializer: P = p(),
	value: Q = q(),
	val_0: P = p(),
	val_serializer: Q = q(),
	_x: P = p(),
	__x: P = p(),
	x: P = p(),
	serialize_data: Q = q(),
	__S: P = p(),
	S: Q = q(),
	ser_raw: P = p(),
	len: Q = q(),
	storage: P = p(),
	pos: P = p(),
});
named!(Raw { r#type: P = p(), r#match: Q = q(), types: P = p() });
named!(Twelve {
	f11: P = p(), f10: Q = q(), f9: P = p(), f8: Q = q(), f7: P = p(), f6: Q = q(),
	f5: P = p(), f4: Q = q(), f3: P = p(), f2: Q = q(), f1: P = p(), f0: Q = q(),
});
named!(Forty {
	a0: P = p(), a1: P = p(), a2: P = p(), a3: P = p(), a4: P = p(), a5: P = p(), a6: P = p(), a7: P = p(), a8: P = p(), a9: P = p(),
	b0: Q = q(), b1: Q = q(), b2: Q = q(), b3: Q = q(), b4: Q = q(), b5: Q = q(), b6: Q = q(), b7: Q = q(), b8: Q = q(), b9: Q = q(),
	c0: P = p(), c1: Q = q(), c2: P = p(), c3: Q = q(), c4: P = p(), c5: Q = q(), c6: P = p(), c7: Q = q(), c8: P = p(), c9: Q = q(),
	d0: R = r(), d1: P = p(), d2: R = r(), d3: P = p(), d4: R = r(), d5: P = p(), d6: R = r(), d7: P = p(), d8: R = r(), d9: P = p(),
});
named!(Nested { one: One = One::new(), p: P = p(), three: Three = Three::new(), unit: Unit = Unit, empty: Empty = Empty::new(), boxed: Box<Three> = Box::new(Three::new()) });
named!(Wide { a: P = p(), w: W = w(), z: Z = Z(), q: Q = q() });

#[derive(Serialize, Clone, Copy)]
pub struct Unit;
expect_struct!(Unit {});
#[derive(Serialize)]
pub struct Tuple0();
expect_struct!(Tuple0 {});
#[derive(Serialize)]
pub struct Tuple1(Q);
expect_struct!(Tuple1 { 0 });
#[derive(Serialize)]
pub struct Tuple3(P, Q, Box<P>);
expect_struct!(Tuple3 { 0, 1, 2 });
#[derive(Serialize)]
pub struct Tuple13(P, Q, P, Q, P, Q, P, Q, P, Q, P, Q, P);
expect_struct!(Tuple13 { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 });
#[derive(Serialize)]
pub struct TupleSame(P, P, P, P, P, P, P, P, P, P, P, P);
expect_struct!(TupleSame { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 });
#[derive(Serialize)]
pub struct TupleNested(Tuple3, Unit, Three, (P, Q), [Tuple1; 2]);
expect_struct!(TupleNested { 0, 1, 2, 3, 4 });

// Generics
#[derive(Serialize)]
pub struct Array<const N: usize> {
	z: [P; N],
	a: Q,
	b: Box<[P; N]>,
}
impl<const N: usize> Expect for Array<N> {
	fn expect(&self, c: &mut Checker) {
		self.z.expect(c);
		self.a.expect(c);
		self.b.expect(c);
	}
}
#[derive(Serialize)]
pub struct Arrays<const N: usize, const M: usize>([P; M], [Q; N])
where [u8; N]: Sized;
impl<const N: usize, const M: usize> Expect for Arrays<N, M> {
	fn expect(&self, c: &mut Checker) {
		self.0.expect(c);
		self.1.expect(c);
	}
}
#[derive(Serialize)]
pub enum Either<const N: usize> {
	Left([P; N]),
	Right { b: Q, a: [P; N] },
	Neither,
}
impl<const N: usize> Expect for Either<N> {
	fn expect(&self, c: &mut Checker) {
		match self {
			Either::Left(a) => a.expect(c),
			Either::Right { b, a } => {
				b.expect(c);
				a.expect(c);
			}
			Either::Neither => {}
		}
	}
}
#[derive(Serialize)]
pub struct Borrowing<'a> {
	p: P,
	#[ser_with(Proxy)]
	r: &'a u32,
	q: Q,
}
impl<'a> Expect for Borrowing<'a> {
	fn expect(&self, c: &mut Checker) {
		self.p.expect(c);
		Expect::expect(&self.r, c);
		self.q.expect(c);
	}
}
#[derive(Serialize)]
pub struct BorrowingBoth<'a, 'b, const N: usize>(#[ser_with(Proxy)] &'b u32, [P; N], #[ser_with(Proxy)] &'a u32);
impl<'a, 'b, const N: usize> Expect for BorrowingBoth<'a, 'b, N> {
	fn expect(&self, c: &mut Checker) {
		Expect::expect(&self.0, c);
		self.1.expect(c);
		Expect::expect(&self.2, c);
	}
}

// Proxies
named!(Counted { n: u32 = nd::any() });
mod elsewhere {
	pub use crate::tape::Proxy as Substitute;
}
#[derive(Serialize)]
pub struct ProxyFirst {
	#[ser_with(Proxy)]
	b: Foreign,
	a: P,
	c: Both2,
}
expect_struct!(ProxyFirst { b, a, c });
#[derive(Serialize)]
pub struct ProxyMiddle {
	a: P,
	/// Comment
	#[allow(dead_code)]
	#[ser_with(elsewhere::Substitute)]
	serializer: Both,
	#[allow(dead_code)]
	b: Q,
}
expect_struct!(ProxyMiddle { a, serializer, b });
#[derive(Serialize)]
pub struct ProxyLast {
	a: P,
	b: Box<P>,
	#[ser_with(crate::tape::Proxy)]
	c: Both,
}
expect_struct!(ProxyLast { a, b, c });
#[derive(Serialize)]
pub struct ProxyTuple(#[ser_with(Proxy)] Both, P, #[ser_with(Proxy)] Foreign, Q, #[ser_with(Proxy)] Both);
expect_struct!(ProxyTuple { 0, 1, 2, 3, 4 });
#[derive(Serialize)]
pub struct ProxyOnly {
	#[ser_with(Proxy)]
	a: Foreign,
}
expect_struct!(ProxyOnly { a });

/// Not by proxy, though it could be.
#[derive(Clone, Copy)]
pub struct Both2(u32);
impl<S: Serializer> Serialize<S> for Both2 {
	fn serialize_data(&self, _: &mut S) {
		event(self as *const Self as usize, 21, 0);
	}
}
impl<S: Serializer> ser_raw::SerializeWith<Both2, S> for Proxy {
	fn serialize_data_with(value: &Both2, _: &mut S) {
		event(value as *const Both2 as usize, 22, 0);
	}
}
impl Expect for Both2 {
	fn expect(&self, c: &mut Checker) {
		c.visit(self, 21);
	}
}

// Bounds
pub trait Chosen: Serializer {
	fn chosen(&self) -> usize;
}
impl<S: Serializer> Chosen for S {
	fn chosen(&self) -> usize {
		31
	}
}
pub struct Choosy(u16);
impl<S: Chosen> Serialize<S> for Choosy {
	fn serialize_data(&self, serializer: &mut S) {
		event(self as *const Self as usize, serializer.chosen(), 0);
	}
}
impl Expect for Choosy {
	fn expect(&self, c: &mut Checker) {
		c.visit(self, 31);
	}
}
#[derive(Serialize)]
#[ser_bound(Chosen)]
pub struct Bound {
	q: Q,
	c: Choosy,
	p: P,
}
expect_struct!(Bound { q, c, p });
#[derive(Serialize)]
#[ser_bound(crate::c11::Chosen)]
pub enum BoundEnum {
	A,
	B { z: Choosy, a: P },
	C(P, Choosy),
}
impl Expect for BoundEnum {
	fn expect(&self, c: &mut Checker) {
		match self {
			BoundEnum::A => {}
			BoundEnum::B { z, a } => {
				z.expect(c);
				a.expect(c);
			}
			BoundEnum::C(a, b) => {
				a.expect(c);
				b.expect(c);
			}
		}
	}
}

// Recursive
#[derive(Serialize)]
pub struct List {
	value: P,
	next: Option<Box<List>>,
	last: Q,
}
expect_struct!(List { value, next, last });
#[derive(Serialize)]
pub enum Tree {
	Leaf(Q),
	Node(Box<Tree>, P, Box<Tree>),
	Nil,
}
impl Expect for Tree {
	fn expect(&self, c: &mut Checker) {
		match self {
			Tree::Leaf(q) => q.expect(c),
			Tree::Node(a, p, b) => {
				a.expect(c);
				p.expect(c);
				b.expect(c);
			}
			Tree::Nil => {}
		}
	}
}

// Enums
#[derive(Serialize, Clone, Copy)]
pub enum Plain {
	A,
	B,
	C = 77,
}
impl Expect for Plain {
	fn expect(&self, _: &mut Checker) {}
}
/// Only has to compile.
#[derive(Serialize)]
pub enum Never {}
#[derive(Serialize)]
pub enum Single {
	Only(Q, P),
}
impl Expect for Single {
	fn expect(&self, c: &mut Checker) {
		let Single::Only(a, b) = self;
		a.expect(c);
		b.expect(c);
	}
}
#[derive(Serialize)]
pub enum SingleNamed {
	Only { serializer: Q, a: P },
}
impl Expect for SingleNamed {
	fn expect(&self, c: &mut Checker) {
		let SingleNamed::Only { serializer, a } = self;
		serializer.expect(c);
		a.expect(c);
	}
}
#[derive(Serialize)]
pub enum SingleUnit {
	Only,
}
impl Expect for SingleUnit {
	fn expect(&self, _: &mut Checker) {}
}
#[derive(Serialize)]
pub enum Hollow {
	A(),
	B {},
	C,
}
impl Expect for Hollow {
	fn expect(&self, _: &mut Checker) {}
}
#[derive(Serialize)]
pub enum Full {
	A(P),
	B(P, P),
	C { b: P, a: P },
}
impl Expect for Full {
	fn expect(&self, c: &mut Checker) {
		match self {
			Full::A(a) => a.expect(c),
			Full::B(a, b) => {
				a.expect(c);
				b.expect(c);
			}
			Full::C { b, a } => {
				b.expect(c);
				a.expect(c);
			}
		}
	}
}

macro_rules! expect_enum {
	($t:ident { $($v:ident $([$($f:tt $a:ident),*])?;)* }) => {
		impl Expect for $t {
			fn expect(&self, c: &mut Checker) {
				let _ = &c;
				match self {
					$( $t::$v { $($($f: $a,)*)? .. } => { $($(Expect::expect($a, c);)*)? } )*
				}
			}
		}
	};
}

/// Declarations put together from what a caller of a macro gives and what the macro itself does.
macro_rules! declared {
	($s:ident $t:ident $e:ident $f:ident $g:ident $ft:ty, $gt:ty) => {
		#[derive(Serialize)]
		pub struct $s { pub mine: P, pub $f: $ft, pub $g: P, pub(crate) mine_too: $gt }
		expect_struct!($s { mine, $f, $g, mine_too });
		#[derive(Serialize)]
		pub struct $t(pub $ft, P, $gt);
		impl Expect for $t {
			fn expect(&self, c: &mut Checker) {
				self.0.expect(c);
				self.1.expect(c);
				self.2.expect(c);
			}
		}
		#[derive(Serialize)]
		pub enum $e { Tuple($ft, P, $gt), Named { mine: P, $f: $ft, $g: $gt }, $s($ft), $t { mine: P }, Unit }
		expect_enum!($e { Tuple [0 a, 1 b, 2 d]; Named [mine a, $f b, $g d]; $s [0 a]; $t [mine a]; Unit; });
	};
}
declared!(DeclaredNamed DeclaredTuple DeclaredEnum this that Q, Box<P>);

pub mod declared_by_macro {
	use super::*;
	harnesses! {
		holds q_named [kani::unwind(50)] { visits(DeclaredNamed { mine: p(), this: q(), that: p(), mine_too: b() }) }
		holds q_tuple [kani::unwind(50)] { visits(DeclaredTuple(q(), p(), b())) }
		holds q_enum_tuple [kani::unwind(50)] { visits(DeclaredEnum::Tuple(q(), p(), b())) }
		holds q_enum_named [kani::unwind(50)] { visits(DeclaredEnum::Named { mine: p(), this: q(), that: b() }) }
		holds q_enum_one [kani::unwind(50)] { visits(DeclaredEnum::DeclaredNamed(q())) }
		holds q_enum_own [kani::unwind(50)] { visits(DeclaredEnum::DeclaredTuple { mine: p() }) }
		holds q_enum_unit [kani::unwind(50)] { visits(DeclaredEnum::Unit) }
	}
}

/// Of everything one.
#[derive(Serialize)]
#[allow(non_snake_case)]
pub enum Mixed {
	Unit,
	One(P),
	Empty(),
	Two(Q, P),
	EmptyNamed {},
	Named { z: P, a: Q, m: R },
	Same { z: P, y: P, x: P, w: P },
	Box(Box<P>, P),
	Vec { p: P, v: Vec<Q> },
	Twelve(P, P, P, P, P, P, P, P, P, P, P, P),
	TwelveNamed { f11: P, f10: P, f9: P, f8: P, f7: P, f6: P, f5: P, f4: P, f3: P, f2: P, f1: P, f0: P },
	Clash { serializer: P, val_serializer: Q, val_0: P, _x: P, x: Q, __x: P, val_x: Q, val__x: P, __S: P },
	None(P),
	Some,
	Nested(Three, Plain, Full),
	Wide { w: W, z: Z, p: P },
	Numbers(u8, P, u64, Q, bool),
}
expect_enum!(Mixed {
	Unit;
	One [0 a];
	Empty;
	Two [0 a, 1 b];
	EmptyNamed;
	Named [z d, a b, m e];
	Same [z d, y e, x f, w g];
	Box [0 a, 1 b];
	Vec [p a, v b];
	Twelve [0 a0, 1 a1, 2 a2, 3 a3, 4 a4, 5 a5, 6 a6, 7 a7, 8 a8, 9 a9, 10 a10, 11 a11];
	TwelveNamed [f11 a0, f10 a1, f9 a2, f8 a3, f7 a4, f6 a5, f5 a6, f4 a7, f3 a8, f2 a9, f1 a10, f0 a11];
	Clash [serializer a0, val_serializer a1, val_0 a2, _x a3, x a4, __x a5, val_x a6, val__x a7, __S a8];
	None [0 a];
	Some;
	Nested [0 a, 1 b, 2 d];
	Wide [w a, z b, p d];
	Numbers [1 a, 3 b];
});

#[derive(Serialize)]
#[repr(u8)]
pub enum ReprU8 {
	A(P) = 200,
	B { z: P, a: Q } = 3,
	C = 0,
}
expect_enum!(ReprU8 { A [0 a]; B [z a, a b]; C; });
#[derive(Serialize)]
#[repr(i64)]
pub enum ReprI64 {
	C = -1,
	A(P, P) = i64::MIN,
	B { z: P, a: Q } = i64::MAX,
}
expect_enum!(ReprI64 { C; A [0 a, 1 b]; B [z a, a b]; });
#[derive(Serialize)]
#[repr(C)]
pub enum ReprC {
	A(P, P),
	B { z: P, a: Q },
}
expect_enum!(ReprC { A [0 a, 1 b]; B [z a, a b]; });
/// Raw identifiers.
#[derive(Serialize)]
#[allow(non_camel_case_types)]
pub enum RawEnum {
	r#type { r#type: P, r#match: Q, types: P },
	r#match(P, Q),
	r#fn,
}
expect_enum!(RawEnum { r#type [r#type a, r#match b, types d]; r#match [0 a, 1 b]; r#fn; });

pub mod variants {
	use super::*;
	use Mixed as M;
	harnesses! {
		holds q_unit [kani::unwind(50)] { visits(M::Unit) }
		holds q_one [kani::unwind(50)] { visits(M::One(p())) }
		holds q_empty [kani::unwind(50)] { visits(M::Empty()) }
		holds q_two [kani::unwind(50)] { visits(M::Two(q(), p())) }
		holds q_empty_named [kani::unwind(50)] { visits(M::EmptyNamed {}) }
		holds q_named [kani::unwind(50)] { visits(M::Named { z: p(), a: q(), m: r() }) }
		holds q_same [kani::unwind(50)] { visits(M::Same { z: p(), y: p(), x: p(), w: p() }) }
		holds q_box [kani::unwind(50)] { visits(M::Box(b(), p())) }
		holds q_vec [kani::unwind(50)] { visits(M::Vec { p: p(), v: vec_with_cap([q(), q()], 2) }) }
		holds q_twelve [kani::unwind(50)] { visits(M::Twelve(p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p())) }
		holds q_twelve_named [kani::unwind(50)] {
			visits(M::TwelveNamed { f11: p(), f10: p(), f9: p(), f8: p(), f7: p(), f6: p(), f5: p(), f4: p(), f3: p(), f2: p(), f1: p(), f0: p() })
		}
		holds q_clash [kani::unwind(50)] {
			visits(M::Clash { serializer: p(), val_serializer: q(), val_0: p(), _x: p(), x: q(), __x: p(), val_x: q(), val__x: p(), __S: p() })
		}
		holds q_none [kani::unwind(50)] { visits(M::None(p())) }
		holds q_some [kani::unwind(50)] { visits(M::Some) }
		holds q_nested_a [kani::unwind(50)] { visits(M::Nested(Three::new(), Plain::C, Full::A(p()))) }
		holds q_nested_b [kani::unwind(50)] { visits(M::Nested(Three::new(), Plain::A, Full::B(p(), p()))) }
		holds q_nested_c [kani::unwind(50)] { visits(M::Nested(Three::new(), Plain::B, Full::C { b: p(), a: p() })) }
		holds q_wide [kani::unwind(50)] { visits(M::Wide { w: w(), z: Z(), p: p() }) }
		holds q_numbers [kani::unwind(50)] { visits(M::Numbers(nd::any(), p(), nd::any(), q(), nd::any())) }
		holds q_any_full [kani::unwind(50)] {
			let value = match nd::any::<u8>() {
				0 => Full::A(p()),
				1 => Full::B(p(), p()),
				_ => Full::C { b: p(), a: p() },
			};
			visits_two(value)
		}

		holds q_plain [kani::unwind(50)] {
			visits(match nd::any::<u8>() { 0 => Plain::A, 1 => Plain::B, _ => Plain::C })
		}
		holds q_single [kani::unwind(50)] { visits(Single::Only(q(), p())) }
		holds q_single_named [kani::unwind(50)] { visits(SingleNamed::Only { serializer: q(), a: p() }) }
		holds q_single_unit [kani::unwind(50)] { visits(SingleUnit::Only) }
		holds q_hollow [kani::unwind(50)] {
			visits(match nd::any::<u8>() { 0 => Hollow::A(), 1 => Hollow::B {}, _ => Hollow::C })
		}
		holds q_full_a [kani::unwind(50)] { visits(Full::A(p())) }
		holds q_full_b [kani::unwind(50)] { visits(Full::B(p(), p())) }
		holds q_full_c [kani::unwind(50)] { visits(Full::C { b: p(), a: p() }) }
		holds q_repr_u8_a [kani::unwind(50)] { visits(ReprU8::A(p())) }
		holds q_repr_u8_b [kani::unwind(50)] { visits(ReprU8::B { z: p(), a: q() }) }
		holds q_repr_u8_c [kani::unwind(50)] { visits(ReprU8::C) }
		holds q_repr_i64_a [kani::unwind(50)] { visits(ReprI64::A(p(), p())) }
		holds q_repr_i64_b [kani::unwind(50)] { visits(ReprI64::B { z: p(), a: q() }) }
		holds q_repr_i64_c [kani::unwind(50)] { visits(ReprI64::C) }
		holds q_repr_c_a [kani::unwind(50)] { visits(ReprC::A(p(), p())) }
		holds q_repr_c_b [kani::unwind(50)] { visits(ReprC::B { z: p(), a: q() }) }
		holds q_raw_a [kani::unwind(50)] { visits(RawEnum::r#type { r#type: p(), r#match: q(), types: p() }) }
		holds q_raw_b [kani::unwind(50)] { visits(RawEnum::r#match(p(), q())) }
		holds q_raw_c [kani::unwind(50)] { visits(RawEnum::r#fn) }
		holds q_either_a [kani::unwind(50)] { visits(Either::<3>::Left([p(), p(), p()])) }
		holds q_either_b [kani::unwind(50)] { visits(Either::<2>::Right { b: q(), a: [p(), p()] }) }
		holds q_either_c [kani::unwind(50)] { visits(Either::<0>::Neither) }
		holds q_bound_a [kani::unwind(50)] { visits(BoundEnum::A) }
		holds q_bound_b [kani::unwind(50)] { visits(BoundEnum::B { z: Choosy(nd::any()), a: p() }) }
		holds q_bound_c [kani::unwind(50)] { visits(BoundEnum::C(p(), Choosy(nd::any()))) }
		holds q_tree [kani::unwind(3)] {
			visits_two(Tree::Node(Box::new(Tree::Nil), p(), Box::new(Tree::Leaf(q()))))
		}
		holds q_array_of [kani::unwind(50)] { visits([Full::A(p()), Full::B(p(), p()), Full::C { b: p(), a: p() }]) }
		holds q_vec_of [kani::unwind(6)] { visits(vec_with_cap([Full::A(p()), Full::B(p(), p()), Full::C { b: p(), a: p() }], 3)) }
		holds q_option_of [kani::unwind(50)] { visits((Some(Full::C { b: p(), a: p() }), None::<Full>)) }
	}
}

harnesses! {
	holds q_one [kani::unwind(50)] { visits(One::new()) }
	holds q_three [kani::unwind(50)] { visits(Three::new()) }
	holds q_same [kani::unwind(50)] { visits(Same::new()) }
	holds q_in_order [kani::unwind(50)] { visits(InOrder::new()) }
	holds q_aligned [kani::unwind(50)] { visits(Aligned::new()) }
	holds q_transparent [kani::unwind(50)] { visits(Transparent::new()) }
	holds q_empty [kani::unwind(50)] { visits(Empty::new()) }
	holds q_heaped [kani::unwind(50)] { visits(Heaped::new()) }
	holds q_numbers [kani::unwind(50)] { visits(Numbers::new()) }
	holds q_clash [kani::unwind(50)] { visits(Clash::new()) }
	holds q_raw [kani::unwind(50)] { visits(Raw::new()) }
	holds q_twelve [kani::unwind(50)] { visits(Twelve::new()) }
	holds q_forty [kani::unwind(50)] { visits_two(Forty::new()) }
	holds q_nested [kani::unwind(50)] { visits(Nested::new()) }
	holds q_wide [kani::unwind(50)] { visits(Wide::new()) }
	holds q_unit [kani::unwind(50)] { visits(Unit) }
	holds q_tuple_0 [kani::unwind(50)] { visits(Tuple0()) }
	holds q_tuple_1 [kani::unwind(50)] { visits(Tuple1(q())) }
	holds q_tuple_3 [kani::unwind(50)] { visits(Tuple3(p(), q(), b())) }
	holds q_tuple_13 [kani::unwind(50)] { visits(Tuple13(p(), q(), p(), q(), p(), q(), p(), q(), p(), q(), p(), q(), p())) }
	holds q_tuple_same [kani::unwind(50)] { visits(TupleSame(p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p(), p())) }
	holds q_tuple_nested [kani::unwind(50)] {
		visits(TupleNested(Tuple3(p(), q(), b()), Unit, Three::new(), (p(), q()), [Tuple1(q()), Tuple1(q())]))
	}
	holds q_const_0 [kani::unwind(50)] { visits(Array::<0> { z: [], a: q(), b: Box::new([]) }) }
	holds q_const_3 [kani::unwind(50)] { visits(Array { z: [p(), p(), p()], a: q(), b: Box::new([p(), p(), p()]) }) }
	holds q_consts [kani::unwind(50)] { visits(Arrays([p(), p()], [q(), q(), q()])) }
	holds q_borrowing [kani::unwind(50)] {
		let x: u32 = nd::any();
		visits(Borrowing { p: p(), r: &x, q: q() })
	}
	holds q_borrowing_both [kani::unwind(50)] {
		let (x, y): (u32, u32) = (nd::any(), nd::any());
		visits(BorrowingBoth(&x, [p(), p()], &y))
	}
	holds q_proxy_first [kani::unwind(50)] { visits(ProxyFirst { b: Foreign(nd::any()), a: p(), c: Both2(nd::any()) }) }
	holds q_proxy_middle [kani::unwind(50)] { visits(ProxyMiddle { a: p(), serializer: Both(nd::any()), b: q() }) }
	holds q_proxy_last [kani::unwind(50)] { visits(ProxyLast { a: p(), b: b(), c: Both(nd::any()) }) }
	holds q_proxy_tuple [kani::unwind(50)] {
		visits(ProxyTuple(Both(nd::any()), p(), Foreign(nd::any()), q(), Both(nd::any())))
	}
	holds q_proxy_only [kani::unwind(50)] { visits(ProxyOnly { a: Foreign(nd::any()) }) }
	holds q_bound [kani::unwind(50)] { visits(Bound { q: q(), c: Choosy(nd::any()), p: p() }) }
	holds q_list_1 [kani::unwind(50)] { visits(List { value: p(), next: None, last: q() }) }
	holds q_list_3 [kani::unwind(6)] {
		let c = List { value: p(), next: None, last: q() };
		let b = List { value: p(), next: Some(Box::new(c)), last: q() };
		visits(List { value: p(), next: Some(Box::new(b)), last: q() })
	}
	holds q_counted [kani::unwind(50)] { visits(Counted::new()) }
}
