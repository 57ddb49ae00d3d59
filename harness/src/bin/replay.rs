//! Replays a counterexample: runs one harness natively on concrete values.
//!
//! `replay list` lists harnesses; `replay run <harness> <file>` runs one.
//! File has one value per line, its bytes comma-separated.
//!
//! Exit status: 0 ran to completion, 77 assumption broken, 78 values do not fit,
//! 101 panic, or a signal.

#[cfg(not(kani))]
mod native {
	use std::{
		alloc::{GlobalAlloc, Layout, System},
		env, fs, process,
	};

	use harness::hooks;

	/// Allocator which checks its contract, and makes mistakes visible:
	/// memory is poisoned when obtained and when released, resizing always moves,
	/// and every block remembers its layout.
	pub struct Checking;

	const HEADER: usize = 32;
	const GUARD: usize = 16;

	fn die(msg: &str) -> ! {
		// No formatting: must not allocate
		unsafe {
			extern "C" {
				fn write(fd: i32, buf: *const u8, len: usize) -> isize;
			}
			write(2, msg.as_ptr(), msg.len());
			write(2, b"\n".as_ptr(), 1);
		}
		process::abort()
	}

	fn outer(layout: Layout) -> (Layout, usize) {
		let align = layout.align().max(HEADER);
		(Layout::from_size_align(align + layout.size() + GUARD, align).unwrap(), align)
	}

	unsafe fn obtain(layout: Layout) -> *mut u8 {
		if layout.size() == 0 {
			die("allocator: zero-size allocation");
		}
		let (o, offset) = outer(layout);
		let base = System.alloc(o);
		if base.is_null() {
			return base;
		}
		base.write_bytes(0xA5, o.size());
		let p = base.add(offset);
		(p.sub(24) as *mut usize).write(layout.size());
		(p.sub(16) as *mut usize).write(layout.align());
		(p.sub(8) as *mut usize).write(0xA110C);
		p.add(layout.size()).write_bytes(0xEE, GUARD);
		p
	}

	unsafe fn verify(p: *mut u8, layout: Layout) {
		if (p.sub(8) as *mut usize).read() != 0xA110C {
			die("allocator: block is not live");
		}
		if (p.sub(24) as *mut usize).read() != layout.size() {
			die("allocator: size does not match");
		}
		if (p.sub(16) as *mut usize).read() != layout.align() {
			die("allocator: alignment does not match");
		}
		for i in 0..GUARD {
			if p.add(layout.size() + i).read() != 0xEE {
				die("allocator: written past end of block");
			}
		}
	}

	unsafe fn release(p: *mut u8, layout: Layout) {
		verify(p, layout);
		let (o, offset) = outer(layout);
		(p.sub(8) as *mut usize).write(0xDEAD);
		p.write_bytes(0xDD, layout.size());
		System.dealloc(p.sub(offset), o);
	}

	unsafe impl GlobalAlloc for Checking {
		unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
			match hooks::alloc(layout) {
				Some(p) => p,
				None => obtain(layout),
			}
		}
		unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
			match hooks::alloc(layout) {
				Some(p) => {
					if hooks::block().mode == hooks::Mode::Arena {
						p.write_bytes(0, layout.size());
					}
					p
				}
				None => {
					let p = obtain(layout);
					p.write_bytes(0, layout.size());
					p
				}
			}
		}
		unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
			if let Some(p) = hooks::realloc(p, layout, new_size) {
				return p;
			}
			let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
			let q = obtain(new_layout);
			if !q.is_null() {
				q.copy_from_nonoverlapping(p, layout.size().min(new_size));
				release(p, layout);
			}
			q
		}
		unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
			if hooks::dealloc(p, layout) {
				return;
			}
			release(p, layout)
		}
	}

	pub fn main() {
		let args: Vec<String> = env::args().collect();
		match args.get(1).map(String::as_str) {
			Some("list") => {
				for (name, kind, _) in harness::table() {
					println!("{} {:?}", name, kind);
				}
			}
			Some("run") => {
				let (name, file) = (&args[2], &args[3]);
				let text = fs::read_to_string(file).unwrap();
				let vals = text
					.lines()
					.filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
					.map(|l| l.split(',').filter(|b| !b.trim().is_empty()).map(|b| b.trim().parse().unwrap()).collect())
					.collect();
				for (n, _, f) in harness::table() {
					if n == name {
						harness::nd::load(vals);
						f();
						println!("replay: completed");
						process::exit(0);
					}
				}
				eprintln!("replay: no such harness");
				process::exit(79);
			}
			_ => process::exit(79),
		}
	}
}

#[cfg(all(not(kani), not(feature = "plain_alloc")))]
#[global_allocator]
static ALLOCATOR: native::Checking = native::Checking;

fn main() {
	#[cfg(not(kani))]
	native::main()
}
