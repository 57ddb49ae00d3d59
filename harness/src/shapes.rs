//! Family of values: shape is concrete, contents are symbolic.

use std::num;

use ser_raw::Serialize;

use crate::{
	kit::{same_struct, *},
	nd,
};

#[derive(Serialize)]
pub struct Prims {
	pub a: u8,
	pub b: u16,
	pub c: u32,
	pub d: u64,
	pub e: u128,
	pub f: usize,
	pub g: i8,
	pub h: i16,
	pub i: i32,
	pub j: i64,
	pub k: i128,
	pub l: isize,
	pub m: f32,
	pub n: f64,
	pub o: bool,
	pub p: char,
	pub q: (),
}
same_struct!(Prims { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q });

#[derive(Serialize)]
pub struct NonZeros {
	pub a: num::NonZeroU8,
	pub b: num::NonZeroU16,
	pub c: num::NonZeroU32,
	pub d: num::NonZeroU64,
	pub e: Option<num::NonZeroU32>,
}
same_struct!(NonZeros { a, b, c, d, e });

#[derive(Serialize)]
pub struct Named {
	pub small: u8,
	pub boxed: Box<u32>,
	pub vec: Vec<u16>,
}
same_struct!(Named { small, boxed, vec });

#[derive(Serialize)]
pub struct Tup(pub String, pub Box<u16>, pub u8);
same_struct!(Tup { 0, 1, 2 });

#[derive(Serialize)]
pub struct Unit;
same_struct!(Unit {});

#[derive(Serialize)]
pub struct Inner {
	pub n: u8,
	pub p: Box<u64>,
}
same_struct!(Inner { n, p });

#[derive(Serialize)]
pub struct Outer {
	pub a: Box<Inner>,
	pub b: Vec<Inner>,
	pub c: Option<Inner>,
}
same_struct!(Outer { a, b, c });

#[derive(Serialize)]
pub struct Zsts {
	pub a: Box<()>,
	pub b: Vec<()>,
	pub c: Box<Unit>,
	pub d: [u64; 0],
	pub e: Box<u8>,
}
same_struct!(Zsts { a, b, c, d, e });

#[derive(Serialize)]
#[repr(align(32))]
pub struct Aligned(pub u8, pub Box<u8>);
same_struct!(Aligned { 0, 1 });

#[derive(Serialize)]
pub struct Node {
	pub v: u16,
	pub next: Option<Box<Node>>,
}
same_struct!(Node { v, next });

#[derive(Serialize)]
#[repr(u8)]
pub enum Choice {
	None,
	Num(u32),
	Boxed(Box<u32>, u8, Box<u16>),
	Fields { x: Box<Vec<u8>>, serializer: Box<u8> },
	Nested(Box<Inner>),
}
impl Same for Choice {
	fn same(&self, out: *const Self, m: &mut Model) {
		let o = unsafe { &*out };
		match (self, o) {
			(Choice::None, Choice::None) => {}
			(Choice::Num(a), Choice::Num(b)) => a.same(b, m),
			(Choice::Boxed(a, b, c), Choice::Boxed(x, y, z)) => {
				a.same(x, m);
				b.same(y, m);
				c.same(z, m);
			}
			(Choice::Fields { x, serializer }, Choice::Fields { x: x2, serializer: s2 }) => {
				x.same(x2, m);
				serializer.same(s2, m);
			}
			(Choice::Nested(a), Choice::Nested(b)) => a.same(b, m),
			_ => panic!("variant differs from input"),
		}
	}
}

pub fn prims() -> Prims {
	Prims {
		a: nd::any(),
		b: nd::any(),
		c: nd::any(),
		d: nd::any(),
		e: nd::any(),
		f: nd::any(),
		g: nd::any(),
		h: nd::any(),
		i: nd::any(),
		j: nd::any(),
		k: nd::any(),
		l: nd::any(),
		m: f32::from_bits(nd::any()),
		n: f64::from_bits(nd::any()),
		o: nd::any::<u8>() & 1 == 1,
		p: {
			let c: u32 = nd::any();
			nd::assume(c < 0xD800);
			unsafe { char::from_u32_unchecked(c) }
		},
		q: (),
	}
}

pub fn non_zeros() -> NonZeros {
	let (a, b, c, d): (u8, u16, u32, u64) = (nd::any(), nd::any(), nd::any(), nd::any());
	nd::assume(a != 0 && b != 0 && c != 0 && d != 0);
	NonZeros {
		a: num::NonZeroU8::new(a).unwrap(),
		b: num::NonZeroU16::new(b).unwrap(),
		c: num::NonZeroU32::new(c).unwrap(),
		d: num::NonZeroU64::new(d).unwrap(),
		e: num::NonZeroU32::new(nd::any()),
	}
}

pub fn inner() -> Inner {
	Inner { n: nd::any(), p: any_box() }
}

pub fn named() -> Named {
	Named { small: nd::any(), boxed: any_box(), vec: any_vec::<u16, 3>() }
}
pub fn tup() -> Tup {
	Tup(any_string::<3>(), any_box(), nd::any())
}
pub fn outer() -> Outer {
	Outer { a: Box::new(inner()), b: vec_with_cap([inner(), inner()], 5), c: Some(inner()) }
}
pub fn zsts() -> Zsts {
	Zsts { a: Box::new(()), b: vec_exact([(), (), ()]), c: Box::new(Unit), d: [], e: any_box() }
}
pub fn aligned() -> Box<Aligned> {
	Box::new(Aligned(nd::any(), any_box()))
}
pub fn vec_aligned() -> (u8, Vec<Aligned>) {
	(nd::any(), vec_with_cap([Aligned(nd::any(), any_box()), Aligned(nd::any(), any_box())], 4))
}
pub fn list(n: usize) -> Node {
	Node { v: nd::any(), next: if n == 0 { None } else { Some(Box::new(list(n - 1))) } }
}
pub fn list2() -> Node {
	list(2)
}

pub fn choice_none() -> Choice {
	Choice::None
}
pub fn choice_num() -> Choice {
	Choice::Num(nd::any())
}
pub fn choice_boxed() -> Choice {
	Choice::Boxed(any_box(), nd::any(), any_box())
}
pub fn choice_fields() -> Choice {
	Choice::Fields { x: Box::new(slack_vec::<u8, 2>()), serializer: any_box() }
}
pub fn choice_nested() -> Choice {
	Choice::Nested(Box::new(inner()))
}

pub fn u8_() -> u8 {
	nd::any()
}
pub fn u64_() -> u64 {
	nd::any()
}
pub fn bytes3() -> [u8; 3] {
	nd::any_array()
}
pub fn box_u8() -> Box<u8> {
	any_box()
}
pub fn box_u32() -> Box<u32> {
	any_box()
}
pub fn box_u128() -> (u8, Box<u128>) {
	(nd::any(), any_box())
}
pub fn box3() -> Box<Box<Box<u16>>> {
	Box::new(Box::new(any_box()))
}
pub fn vec_u8() -> Vec<u8> {
	any_vec::<u8, 3>()
}
pub fn vec_u16() -> Vec<u16> {
	any_vec::<u16, 3>()
}
pub fn vec_u64() -> Vec<u64> {
	any_vec::<u64, 2>()
}
pub fn vec_u128() -> (Vec<u8>, Vec<u128>) {
	(slack_vec::<u8, 1>(), slack_vec::<u128, 1>())
}
pub fn vec_arr() -> Vec<[u8; 5]> {
	vec_any_cap([nd::any_array(), nd::any_array(), nd::any_array()])
}
pub fn vec_empty_cap() -> (u64, Vec<u32>, u64) {
	(nd::any(), any_vec::<u32, 0>(), nd::any())
}
pub fn vec_empty_new() -> (u64, Vec<u32>, u64) {
	(nd::any(), Vec::new(), nd::any())
}
pub fn str1() -> String {
	any_string::<1>()
}
pub fn str5() -> (u8, String, u8) {
	(nd::any(), any_string::<5>(), nd::any())
}
pub fn str_empty_cap() -> (u64, String, u64) {
	(nd::any(), any_string::<0>(), nd::any())
}
pub fn str_empty_new() -> (u64, String, u64) {
	(nd::any(), String::new(), nd::any())
}
pub fn opt_some() -> Option<Box<u16>> {
	Some(any_box())
}
pub fn opt_none() -> (Option<Box<u16>>, Box<u8>) {
	(None, any_box())
}
pub fn opt_vec() -> Option<Vec<u8>> {
	Some(slack_vec::<u8, 2>())
}
pub fn opt_opt() -> Option<Option<u8>> {
	Some(Some(nd::any()))
}
pub fn arr_box() -> [Box<u16>; 3] {
	[any_box(), any_box(), any_box()]
}
pub fn arr_vec() -> [Vec<u8>; 2] {
	[slack_vec::<u8, 1>(), slack_vec::<u8, 3>()]
}
pub fn tuple() -> (String, Box<u16>, Vec<u32>, u8) {
	(slack_string::<3>(), any_box(), slack_vec::<u32, 2>(), nd::any())
}
pub fn vec_vec() -> Vec<Vec<u8>> {
	vec_with_cap([slack_vec::<u8, 2>(), vec_exact([]), slack_vec::<u8, 3>()], 4)
}
pub fn vec_vec_any() -> Vec<Vec<u8>> {
	vec_with_cap([any_vec::<u8, 2>(), any_vec::<u8, 3>()], 4)
}
pub fn vec_box() -> Vec<Box<u32>> {
	vec_with_cap([any_box(), any_box()], 9)
}
pub fn vec_str() -> Vec<String> {
	vec_with_cap([slack_string::<2>(), slack_string::<1>()], 2)
}
pub fn vec_opt() -> Vec<Option<Box<u8>>> {
	vec_with_cap([Some(any_box()), None, Some(any_box())], 3)
}
pub fn box_vec() -> Box<Vec<u16>> {
	Box::new(any_vec::<u16, 2>())
}
pub fn box_tuple() -> Box<(u8, Box<u16>, Box<u8>)> {
	Box::new((nd::any(), any_box(), any_box()))
}
pub fn box_str() -> Box<(String, Box<u8>)> {
	Box::new((slack_string::<2>(), any_box()))
}
pub fn unit() -> (Unit, Box<Unit>, Box<u8>) {
	(Unit, Box::new(Unit), any_box())
}

/// One harness per shape x configuration x starting capacity, checked by `$run`.
// Larger ones
pub fn many() -> ([Box<u16>; 5], Vec<u64>, Box<u8>, Box<u8>) {
	([any_box(), any_box(), any_box(), any_box(), any_box()], slack_vec::<u64, 3>(), any_box(), any_box())
}
pub fn bytes40() -> (u8, Vec<u8>, Box<u8>) {
	(nd::any(), slack_vec::<u8, 40>(), any_box())
}
pub fn str20() -> (u16, String, Box<u16>) {
	(nd::any(), slack_string::<20>(), any_box())
}
pub fn matrix() -> Box<[[u16; 3]; 4]> {
	Box::new([nd::any_array(), nd::any_array(), nd::any_array(), nd::any_array()])
}
pub fn box_matrix() -> [[Box<u8>; 2]; 3] {
	[[any_box(), any_box()], [any_box(), any_box()], [any_box(), any_box()]]
}
pub fn vec_pairs() -> Vec<(u8, String)> {
	vec_with_cap([(nd::any(), slack_string::<2>()), (nd::any(), slack_string::<3>())], 3)
}
pub fn vec_box8() -> Vec<Box<u16>> {
	vec_with_cap([any_box(), any_box(), any_box(), any_box(), any_box(), any_box(), any_box(), any_box()], 8)
}
pub fn list4() -> Node {
	list(4)
}
type Twelve = (u8, Box<u32>, u16, Box<u8>, u64, String, u8, Option<Box<u16>>, u32, Vec<u16>, u8, Box<u64>);
pub fn twelve() -> Twelve {
	(
		nd::any(), any_box(), nd::any(), any_box(), nd::any(), slack_string::<1>(), nd::any(), Some(any_box()), nd::any(),
		slack_vec::<u16, 2>(), nd::any(), any_box(),
	)
}
pub fn deep() -> Box<Vec<Box<(u8, Vec<Box<u16>>)>>> {
	Box::new(vec_with_cap([Box::new((nd::any(), vec_with_cap([any_box(), any_box()], 2))), Box::new((nd::any(), vec_exact([])))], 2))
}
pub fn vec_ints() -> (Vec<u32>, Vec<i16>, Vec<u64>, Vec<u8>) {
	(slack_vec::<u32, 3>(), slack_vec::<i16, 5>(), slack_vec::<u64, 2>(), slack_vec::<u8, 7>())
}
pub fn choices() -> [Choice; 3] {
	[choice_boxed(), choice_none(), choice_nested()]
}

macro_rules! shape_harnesses {
	($run:ident) => {
		crate::harnesses! {
			holds q_u8 [kani::unwind(10)] { $run(SDefault::new(), u8_(), 0); }
			holds q_u64 [kani::unwind(10)] { $run(SPacked::new(), u64_(), 8); }
			holds q_bytes3 [kani::unwind(10)] { $run(SPacked::new(), bytes3(), 0); }
			holds q_prims [kani::unwind(10)] { $run(SDefault::new(), prims(), 0); }
			holds q_non_zeros [kani::unwind(10)] { $run(SDefault::new(), non_zeros(), 0); }
			holds q_box_u8 [kani::unwind(10)] { $run(SDefault::new(), box_u8(), 0); }
			holds q_box_u32 [kani::unwind(10)] { $run(SPacked::new(), box_u32(), 8); }
			holds q_box_u128 [kani::unwind(10)] { $run(SDefault::new(), box_u128(), 0); }
			holds q_box_u128_packed [kani::unwind(10)] { $run(SPacked::new(), box_u128(), 20); }
			holds q_box3 [kani::unwind(10)] { $run(SDefault::new(), box3(), 0); }
			holds q_box3_wide [kani::unwind(10)] { $run(SWide::new(), box3(), 16); }
			holds q_vec_u8 [kani::unwind(10)] { $run(SDefault::new(), vec_u8(), 0); }
			holds q_vec_u8_packed [kani::unwind(10)] { $run(SPacked::new(), vec_u8(), 24); }
			holds q_vec_u16 [kani::unwind(10)] { $run(SMixed::new(), vec_u16(), 0); }
			holds q_vec_u64 [kani::unwind(10)] { $run(SWide::new(), vec_u64(), 256); }
			holds q_vec_u128 [kani::unwind(10)] { $run(SDefault::new(), vec_u128(), 256); }
			holds q_vec_arr [kani::unwind(20)] { $run(SDefault::new(), vec_arr(), 0); }
			holds q_vec_empty_cap [kani::unwind(10)] { $run(SDefault::new(), vec_empty_cap(), 0); }
			holds q_vec_empty_new [kani::unwind(10)] { $run(SDefault::new(), vec_empty_new(), 64); }
			holds q_str1 [kani::unwind(10)] { $run(SDefault::new(), str1(), 0); }
			holds q_str5 [kani::unwind(10)] { $run(SPacked::new(), str5(), 0); }
			holds q_str_empty_cap [kani::unwind(10)] { $run(SDefault::new(), str_empty_cap(), 0); }
			holds q_str_empty_new [kani::unwind(10)] { $run(SDefault::new(), str_empty_new(), 0); }
			holds q_opt_some [kani::unwind(10)] { $run(SDefault::new(), opt_some(), 0); }
			holds q_opt_none [kani::unwind(10)] { $run(SDefault::new(), opt_none(), 16); }
			holds q_opt_vec [kani::unwind(10)] { $run(SDefault::new(), opt_vec(), 0); }
			holds q_opt_opt [kani::unwind(10)] { $run(SDefault::new(), opt_opt(), 0); }
			holds q_arr_box [kani::unwind(10)] { $run(SDefault::new(), arr_box(), 0); }
			holds q_arr_vec [kani::unwind(10)] { $run(SPacked::new(), arr_vec(), 256); }
			holds q_tuple [kani::unwind(10)] { $run(SDefault::new(), tuple(), 0); }
			holds q_tuple_packed [kani::unwind(10)] { $run(SPacked::new(), tuple(), 80); }
			holds q_vec_vec [kani::unwind(10)] { $run(SDefault::new(), vec_vec(), 0); }
			holds q_vec_vec_any [kani::unwind(10)] { $run(SDefault::new(), vec_vec_any(), 256); }
			holds q_vec_box [kani::unwind(10)] { $run(SMixed::new(), vec_box(), 0); }
			holds q_vec_str [kani::unwind(10)] { $run(SDefault::new(), vec_str(), 80); }
			holds q_vec_opt [kani::unwind(10)] { $run(SDefault::new(), vec_opt(), 0); }
			holds q_box_vec [kani::unwind(10)] { $run(SDefault::new(), box_vec(), 0); }
			holds q_box_tuple [kani::unwind(10)] { $run(SDefault::new(), box_tuple(), 0); }
			holds q_box_str [kani::unwind(10)] { $run(SWide::new(), box_str(), 0); }
			holds q_named [kani::unwind(10)] { $run(SDefault::new(), named(), 0); }
			holds q_tup [kani::unwind(10)] { $run(SPacked::new(), tup(), 64); }
			holds q_outer [kani::unwind(10)] { $run(SDefault::new(), outer(), 0); }
			holds q_outer_roomy [kani::unwind(10)] { $run(SPacked::new(), outer(), 512); }
			holds q_zsts [kani::unwind(10)] { $run(SDefault::new(), zsts(), 0); }
			holds q_unit [kani::unwind(10)] { $run(SDefault::new(), unit(), 0); }
			holds q_aligned [kani::unwind(10)] { $run(SMixed::new(), aligned(), 0); }
			holds q_vec_aligned [kani::unwind(10)] { $run(SMixed::new(), vec_aligned(), 64); }
			holds q_list [kani::unwind(10)] { $run(SDefault::new(), list2(), 0); }
			holds q_choice_none [kani::unwind(10)] { $run(SDefault::new(), choice_none(), 0); }
			holds q_choice_num [kani::unwind(10)] { $run(SDefault::new(), choice_num(), 0); }
			holds q_choice_boxed [kani::unwind(10)] { $run(SDefault::new(), choice_boxed(), 0); }
			holds q_choice_fields [kani::unwind(10)] { $run(SDefault::new(), choice_fields(), 0); }
			holds q_choice_nested [kani::unwind(10)] { $run(SPacked::new(), choice_nested(), 256); }
			holds q_small_box3 [kani::unwind(10)] { $run(SShort::new(), box3(), 0); }
			holds q_small_tuple [kani::unwind(10)] { $run(SShort::new(), tuple(), 0); }
			holds q_limited_vec_str [kani::unwind(10)] { $run(SLimited::new(), vec_str(), 0); }
			holds q_limited_named [kani::unwind(10)] { $run(SLimited::new(), named(), 64); }
			holds q_large_many [kani::unwind(10)] { $run(SDefault::new(), many(), 0); }
			holds q_large_many_packed [kani::unwind(10)] { $run(SPacked::new(), many(), 512); }
			holds q_large_bytes40 [kani::unwind(42)] { $run(SDefault::new(), bytes40(), 0); }
			holds q_large_str20 [kani::unwind(22)] { $run(SPacked::new(), str20(), 0); }
			holds q_large_matrix [kani::unwind(10)] { $run(SMixed::new(), matrix(), 0); }
			holds q_large_box_matrix [kani::unwind(10)] { $run(SShort::new(), box_matrix(), 0); }
			holds q_large_vec_pairs [kani::unwind(10)] { $run(SDefault::new(), vec_pairs(), 0); }
			holds q_large_vec_box8 [kani::unwind(10)] { $run(SDefault::new(), vec_box8(), 0); }
			holds q_large_list4 [kani::unwind(10)] { $run(SDefault::new(), list4(), 0); }
			holds q_large_twelve [kani::unwind(10)] { $run(SPacked::new(), twelve(), 0); }
			holds q_large_deep [kani::unwind(10)] { $run(SDefault::new(), deep(), 0); }
			holds q_large_vec_ints [kani::unwind(14)] { $run(SWide::new(), vec_ints(), 0); }
			holds q_large_choices [kani::unwind(10)] { $run(SDefault::new(), choices(), 0); }
		}
	};
}
pub(crate) use shape_harnesses;
