//! Values which ask for positions of their parts while they are serialized.

use ser_raw::{pos::{Addr, TrackingAddr}, ser_traits::PosTracking, Serialize};

use crate::{kit::*, rec::*};

/// Where the copy of what is at an address is.
pub trait Locate {
	fn locate(&self, addr: usize) -> usize;
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Locate for Rec<SA, MVA, VA, MAX> {
	fn locate(&self, addr: usize) -> usize {
		let mut i = 0;
		let mut at = usize::MAX;
		while i < self.n {
			let p = &self.pushes[i];
			if addr >= p.src && addr - p.src < p.size {
				at = p.pos + (addr - p.src);
			}
			i += 1;
		}
		assert!(at != usize::MAX, "value in progress is not in output");
		at
	}
}

/// Each part of this asks for its position before, between and after its children.
pub struct Probe<T> {
	pub first: u8,
	pub child: T,
	pub last: u32,
}

pub fn ask<S: PosTracking, T>(s: &S, part: &T)
where S::Storage: Locate {
	let addr = part as *const T as usize;
	let at = s.storage().locate(addr);
	assert!(s.pos_for(part) == at, "position of value in progress is wrong");
	assert!(s.pos_mapping().pos_for_addr(TrackingAddr::from_ref(part)) == at, "position by address is wrong");
}

impl<S: PosTracking, T: Serialize<S>> Serialize<S> for Probe<T>
where S::Storage: Locate
{
	fn serialize_data(&self, s: &mut S) {
		ask(s, self);
		ask(s, &self.last);
		self.child.serialize_data(s);
		ask(s, &self.first);
		ask(s, &self.child);
		ask(s, &self.last);
	}
}

pub fn probe<T>(child: T) -> Probe<T> {
	Probe { first: 1, child, last: 2 }
}

pub fn boxed() -> Probe<Box<Probe<u64>>> {
	probe(Box::new(probe(1)))
}
pub fn deep() -> Probe<Box<Probe<Vec<Probe<Box<u8>>>>>> {
	probe(Box::new(probe(vec_with_cap([probe(Box::new(1)), probe(Box::new(2))], 2))))
}
pub fn siblings() -> Probe<(Box<Probe<u8>>, Box<Probe<Box<u16>>>)> {
	probe((Box::new(probe(1)), Box::new(probe(Box::new(3)))))
}
pub fn vecs() -> Vec<Probe<Vec<Probe<u8>>>> {
	vec_with_cap([probe(vec_exact([probe(1), probe(2)])), probe(vec_exact([]))], 2)
}
pub fn strings() -> Probe<(String, Probe<Vec<u8>>, Box<Probe<String>>)> {
	probe((slack_string::<2>(), probe(vec_exact([1, 2])), Box::new(probe(slack_string::<0>()))))
}
pub fn zsts() -> Probe<(Box<()>, Vec<()>, Option<Box<Probe<()>>>)> {
	probe((Box::new(()), vec_exact([()]), Some(Box::new(probe(())))))
}
pub fn arrays() -> [Probe<Box<Probe<[u8; 3]>>>; 2] {
	[probe(Box::new(probe([1, 2, 3]))), probe(Box::new(probe([1, 2, 3])))]
}

