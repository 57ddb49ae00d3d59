//! C12: containers visit each element exactly once, in order.

use std::mem::{self, ManuallyDrop};

use ser_raw::{Serialize, Serializer};

use crate::{harnesses, kit::*, nd, tape::*};

fn p() -> P {
	P(nd::any())
}
fn q() -> Q {
	Q(nd::any())
}
fn ps<const N: usize>() -> [P; N] {
	[P::default(); N]
}

/// Tuple of `P`s, one `Q`, and a box, so that offsets differ from indices.
macro_rules! tuple_of {
	($($e:ident)*) => { ($($e(),)*) };
}
fn b() -> Box<P> {
	Box::new(P(nd::any()))
}
fn r() -> R {
	R::default()
}

/// String of up to 64 bytes.
fn any_string<S: Serializer>(mut serializer: S) {
	let v: ManuallyDrop<Vec<u8>> = any_len_vec::<64>();
	let s: ManuallyDrop<String> = unsafe { mem::transmute(v) };
	start();
	serializer.serialize_value::<String>(&s);
	let mut c = checker();
	c.push::<String>(&*s, 1);
	if s.len() != 0 {
		c.push(s.as_ptr(), s.len());
	}
	c.done();
	mem::forget(serializer);
}
/// Vector of up to `N` bytes, with any capacity.
fn any_len_vec<const N: usize>() -> ManuallyDrop<Vec<u8>> {
	unsafe {
		let (p, c, l) = vec_words::<u8>();
		let len = nd::any_in(0, N);
		let mut words = [0usize; 3];
		words[p] = Box::leak(Box::new([0u8; N])) as *mut _ as usize;
		words[c] = nd::any_in(len, isize::MAX as usize);
		words[l] = len;
		mem::transmute_copy(&words)
	}
}
fn any_bytes<const N: usize, S>(mut serializer: S)
where S: Serializer {
	let v = any_len_vec::<N>();
	start();
	serializer.serialize_value::<Vec<u8>>(&v);
	let mut c = checker();
	c.push::<Vec<u8>>(&*v, 1);
	if v.len() != 0 {
		c.push(v.as_ptr(), v.len());
	}
	c.done();
	mem::forget(serializer);
}

/// One of very many: has to be the next one.
#[derive(Clone, Copy)]
pub struct Next(u16);
struct Expected {
	addr: usize,
	_unlike: usize,
}
static mut NEXT: Expected = Expected { addr: 0, _unlike: 0x4e_4558_5463_3132 };
impl<S: Serializer> Serialize<S> for Next {
	fn serialize_data(&self, _: &mut S) {
		unsafe {
			assert!(NEXT.addr == self as *const Self as usize, "visited something else, or in wrong order");
			NEXT.addr += mem::size_of::<Self>();
		}
	}
}
fn in_turn<S: Serializer, T: Serialize<S>>(mut serializer: S, value: &T, first: *const Next, n: usize) {
	unsafe { NEXT.addr = first as usize };
	serializer.serialize_value(value);
	let end = first as usize + n * mem::size_of::<Next>();
	assert!(unsafe { NEXT.addr } == end, "something is not visited");
	mem::forget(serializer);
}
fn many_array<const N: usize>() {
	let value = Box::new([Next(7); N]);
	let first = value.as_ptr();
	start();
	in_turn(PureTape::new(), &*value, first, N);
	start();
	in_turn(FullTape::new(), &*value, first, N);
	start();
	in_turn(OffsetTape::new(), &value, first, N);
	mem::forget(value);
}
fn many_vec<const N: usize>() {
	let value = ManuallyDrop::new(vec_any_cap([Next(7); N]));
	let first = value.as_ptr();
	start();
	in_turn(PureTape::new(), &*value, first, N);
	start();
	in_turn(FullTape::new(), &*value, first, N);
}

harnesses! {
	holds q_array_many_300 [kani::unwind(303)] { many_array::<300>() }
	holds q_vec_many_300 [kani::unwind(303)] { many_vec::<300>() }
	holds t_array_many_1100 [kani::unwind(1103)] { many_array::<1100>() }
	holds t_vec_many_1100 [kani::unwind(1103)] { many_vec::<1100>() }
	holds q_array_0 [kani::unwind(50)] { visits(ps::<0>()) }
	holds q_array_1 [kani::unwind(50)] { visits(ps::<1>()) }
	holds q_array_2 [kani::unwind(50)] { visits([q(), q()]) }
	holds q_array_3 [kani::unwind(50)] { visits(ps::<3>()) }
	holds q_array_8 [kani::unwind(50)] { visits(ps::<8>()) }
	holds q_array_17 [kani::unwind(50)] { visits_two([r(); 17]) }
	holds q_array_33 [kani::unwind(50)] { visits_two(ps::<33>()) }
	holds q_array_40 [kani::unwind(50)] { visits_two(ps::<40>()) }
	holds q_array_zst [kani::unwind(50)] { visits([Z(); 5]) }
	holds q_array_wide [kani::unwind(50)] { visits([W::default(); 3]) }
	holds q_array_box [kani::unwind(50)] { visits([b(), b(), b()]) }
	holds q_array_array [kani::unwind(50)] { visits([[q(), q()], [q(), q()], [q(), q()]]) }
	holds q_array_tuple [kani::unwind(50)] { visits([(p(), q()), (p(), q())]) }
	holds q_array_u8 [kani::unwind(50)] { visits(nd::any_array::<u8, 5>()) }

	holds q_tuple_1 [kani::unwind(50)] { visits(tuple_of!(q)) }
	holds q_tuple_2 [kani::unwind(50)] { visits(tuple_of!(p q)) }
	holds q_tuple_3 [kani::unwind(50)] { visits(tuple_of!(p q r)) }
	holds q_tuple_4 [kani::unwind(50)] { visits_two(tuple_of!(p q r b)) }
	holds q_tuple_5 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p)) }
	holds q_tuple_6 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q)) }
	holds q_tuple_7 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r)) }
	holds q_tuple_8 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p)) }
	holds q_tuple_9 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q)) }
	holds q_tuple_10 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r)) }
	holds q_tuple_11 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p)) }
	holds q_tuple_12 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q)) }
	holds q_tuple_13 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r)) }
	holds q_tuple_14 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p)) }
	holds q_tuple_15 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q)) }
	holds q_tuple_16 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r)) }
	holds q_tuple_17 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p)) }
	holds q_tuple_18 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q)) }
	holds q_tuple_19 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r)) }
	holds q_tuple_20 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p)) }
	holds q_tuple_21 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q)) }
	holds q_tuple_22 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r)) }
	holds q_tuple_23 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p)) }
	holds q_tuple_24 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q)) }
	holds q_tuple_25 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r)) }
	holds q_tuple_26 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p)) }
	holds q_tuple_27 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q)) }
	holds q_tuple_28 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q r)) }
	holds q_tuple_29 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q r p)) }
	holds q_tuple_30 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q r p q)) }
	holds q_tuple_31 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q r p q r)) }
	holds q_tuple_32 [kani::unwind(50)] { visits_two(tuple_of!(p q r b p q r p q r p q r p q r p q r p q r p q r p q r p q r p)) }

	holds q_option_none [kani::unwind(50)] { visits((None::<Q>, None::<Box<P>>, None::<Vec<P>>, None::<P>)) }
	holds q_option_some [kani::unwind(50)] { visits((Some(q()), Some(b()), Some(p()))) }
	holds q_option_vec [kani::unwind(50)] { visits(Some(vec_with_cap([p(), p()], 5))) }
	holds q_option_option [kani::unwind(50)] { visits((Some(Some(p())), Some(None::<Q>))) }
	holds q_option_zst [kani::unwind(50)] { visits((Some(Z()), None::<Z>)) }
	holds q_option_string [kani::unwind(50)] { visits((Some(slack_string::<3>()), None::<String>)) }

	holds q_box [kani::unwind(50)] { visits(b()) }
	holds q_box_wide [kani::unwind(50)] { visits(Box::new(W::default())) }
	holds q_box_box [kani::unwind(50)] { visits(Box::new(Box::new(b()))) }
	holds q_box_tuple [kani::unwind(50)] { visits(Box::new((p(), b(), q()))) }
	holds q_box_array [kani::unwind(50)] { visits(Box::new([b(), b()])) }
	holds q_box_zst [kani::unwind(50)] { visits((Box::new(Z()), Box::new([Z(); 3]), Box::new([q(); 0]))) }
	holds q_box_option [kani::unwind(50)] { visits(Box::new(Some(q()))) }
	holds q_box_none [kani::unwind(50)] { visits(Box::new(None::<Box<P>>)) }

	holds q_vec_0 [kani::unwind(50)] { visits((vec_exact::<P, 0>([]), vec_any_cap::<Q, 0>([]))) }
	holds q_vec_1 [kani::unwind(50)] { visits(vec_any_cap([q()])) }
	holds q_vec_2 [kani::unwind(50)] { visits(vec_any_cap([p(), p()])) }
	holds q_vec_5 [kani::unwind(50)] { visits(vec_exact([r(); 5])) }
	holds q_vec_12 [kani::unwind(50)] { visits_two(vec_any_cap(ps::<12>())) }
	holds q_vec_40 [kani::unwind(50)] { visits_two(vec_any_cap(ps::<40>())) }
	holds q_vec_wide [kani::unwind(50)] { visits(vec_any_cap([W::default(); 3])) }
	holds q_vec_zst [kani::unwind(50)] { visits(vec_with_cap([Z(); 4], 4)) }
	holds q_vec_box [kani::unwind(50)] { visits(vec_any_cap([b(), b(), b()])) }
	holds q_vec_vec [kani::unwind(6)] { visits(vec_any_cap([vec_any_cap([p(), p()]), vec_exact([]), vec_any_cap([p()])])) }
	holds q_vec_tuple [kani::unwind(50)] { visits(vec_any_cap([(p(), b()), (p(), b())])) }
	holds q_vec_option [kani::unwind(50)] { visits(vec_any_cap([Some(q()), None, Some(q())])) }
	holds q_vec_string [kani::unwind(50)] { visits(vec_any_cap([slack_string::<2>(), slack_string::<0>(), slack_string::<1>()])) }
	holds q_vec_u64 [kani::unwind(50)] { visits(any_vec::<u64, 5>()) }

	holds q_string [kani::unwind(50)] { visits((slack_string::<0>(), slack_string::<1>(), slack_string::<7>())) }
	holds q_string_any_pure [kani::unwind(50)] { any_string(PureTape::new()) }
	holds q_string_any_track [kani::unwind(50)] { any_string(TrackTape::new()) }
	holds q_string_any_offset [kani::unwind(50)] { any_string(OffsetTape::new()) }
	holds q_string_any_full [kani::unwind(50)] { any_string(FullTape::new()) }
	holds q_bytes_any_pure [kani::unwind(50)] { any_bytes::<40, _>(PureTape::new()) }
	holds q_bytes_any_full [kani::unwind(50)] { any_bytes::<40, _>(FullTape::new()) }

	holds q_mixed [kani::unwind(6)] {
		visits_two((
			vec_any_cap([Some(Box::new((p(), vec_any_cap([b(), b()])))), None]),
			[Some(b()), None, Some(b())],
			Box::new((slack_string::<2>(), [vec_any_cap([q()]), vec_exact([])])),
			p(),
		))
	}
	holds q_numbers [kani::unwind(50)] {
		visits((
			(nd::any::<i8>(), nd::any::<i16>(), nd::any::<i32>(), nd::any::<i64>(), nd::any::<i128>(), nd::any::<isize>()),
			(nd::any::<u8>(), nd::any::<u16>(), nd::any::<u32>(), nd::any::<u64>(), nd::any::<u128>(), nd::any::<usize>()),
			(f32::from_bits(nd::any()), f64::from_bits(nd::any()), nd::any::<bool>(), 'x', ()),
			Some(std::num::NonZeroU8::new(1).unwrap()), Some(std::num::NonZeroI128::new(i128::MIN).unwrap()),
		))
	}
}
