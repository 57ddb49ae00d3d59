From 9cb92bc4e24ce7007af5f24cda5ab6f4d8bcc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 1/6] fix: align dangling pointer of unallocated AlignedVec to
 storage alignment

An unallocated AlignedVec held NonNull::<u8>::dangling() (address 1), so pushing
an empty slice or reading a zero-sized value with alignment above 1 used a
misaligned pointer, which is undefined behaviour.
---
 ser_raw/src/storage/aligned_vec.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..1265d0f 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::dangling(),
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::dangling()
 				} else {
 					self.realloc(new_cap)
 				}
@@ -305,6 +305,16 @@ impl<
 		self.capacity = new_cap;
 	}
 
+	/// Dangling pointer used when there is no allocation.
+	///
+	/// Aligned to `STORAGE_ALIGNMENT`, so it is valid for zero-sized reads and
+	/// writes of any type which can be stored.
+	#[inline]
+	const fn dangling() -> NonNull<u8> {
+		// `STORAGE_ALIGNMENT` cannot be 0, so this is not null
+		unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) }
+	}
+
 	/// Allocate backing memory.
 	///
 	/// # Safety
-- 
2.43.0


From d19268f9a428ed858ba7b8d0f9954dc83f2ea2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 2/6] fix: panic instead of wrapping when push_empty_slice size
 overflows

size_of::<T>() * len wrapped in release builds, so a huge len returned a position
with far less space than requested behind it.
---
 ser_raw/src/storage/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..1c6bea9 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -349,11 +349,20 @@ pub trait Storage: Sized {
 	/// If the size of the slice is known statically, prefer
 	/// `push_empty::<[T; N]>()` to `push_empty_slice::<T>(N)`,
 	/// as the former is slightly more efficient.
+	///
+	/// # Panics
+	///
+	/// Panics if this would cause the [`Storage`] to exceed
+	/// [`MAX_CAPACITY`](Storage::MAX_CAPACITY).
 	#[inline]
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// `len` comes from the caller and is not the length of a real slice,
+		// so this could overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("capacity overflow");
 		self.reserve(size);
 		let pos = self.pos();
 		unsafe { self.set_pos(self.pos() + size) };
-- 
2.43.0


From 03765aef00e11f9b68a053b7346012955a27fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 3/6] fix: keep position aligned in push_empty_slice

---
 ser_raw/src/storage/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 1c6bea9..d214129 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -365,9 +365,11 @@ pub trait Storage: Sized {
 			.expect("capacity overflow");
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
 
-		self.align_after::<T>();
+		// `set_pos` requires position to be aligned, so include padding after values.
+		// Cannot exceed capacity, as capacity is a multiple of `VALUE_ALIGNMENT`.
+		unsafe { self.set_pos(align_up_to(pos + size, Self::VALUE_ALIGNMENT)) };
+
 		pos
 	}
 
-- 
2.43.0


From a44963b87934c8c7096dfedca0045828b233bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 4/6] fix: derive Serialize on enum variants with raw
 identifiers as field names

---
 ser_raw_derive/src/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b0b6930..76e981d 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{quote, quote_spanned};
+use quote::{format_ident, quote, quote_spanned};
 use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
 // TODO: Handle `ser_with` attribute
@@ -87,7 +87,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	// `Self::Foo {x: val_x} =>` instead of just `Self::Foo {x} =>`.
 	let field_aliases = field_idents
 		.iter()
-		.map(|ident| Ident::new(&("val_".to_string() + &ident.to_string()), ident.span()))
+		.map(|ident| format_ident!("val_{}", ident))
 		.collect::<Vec<_>>();
 
 	let var_mappings = std::iter::zip(&field_idents, &field_aliases)
-- 
2.43.0


From 1805d9f7c27dd99708dc130ebeda7d6cf08df4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 5/6] fix: derive(Serialize) on a struct whose declaration
 comes from a macro

`self` and `serializer` had the hygiene of the field, which is not that of the
function they are parameters of if a macro_rules macro declares the struct with
fields given by its caller, so that the program was rejected.
---
 ser_raw_derive/src/structs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index b13b276..8fce494 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
@@ -54,16 +54,19 @@ fn get_unnamed_field_stmts(fields: FieldsUnnamed) -> Vec<TokenStream> {
 }
 
 fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
+	// Errors point at the field, but `self` and `serializer` have to resolve to the parameters of
+	// `serialize_data`, whose span is the call site. Field has another one if a macro declares the type.
+	let span = Span::call_site().located_at(field.span());
 	match get_with(field) {
 		Some(with) => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(
 					&self.#field_name, serializer
 				);
 			}
 		}
 		None => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				::ser_raw::Serialize::<__S>::serialize_data(
 					&self.#field_name, serializer
 				);
-- 
2.43.0


From d62c6bfed60b8ba70b944c3eb1525f652e10d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 6/6] fix: derive(Serializer) on structs named like the traits
 it implements, or with type parameters T, P or W

---
 ser_raw_derive_serializer/src/lib.rs          |  4 +--
 .../src/ser_types/complete.rs                 | 29 +++++++++----------
 .../src/ser_types/pos_tracking.rs             | 19 +++++-------
 .../src/ser_types/ptr_offset.rs               | 18 +++++-------
 4 files changed, 31 insertions(+), 39 deletions(-)

diff --git a/ser_raw_derive_serializer/src/lib.rs b/ser_raw_derive_serializer/src/lib.rs
index a4d0751..8861b72 100644
--- a/ser_raw_derive_serializer/src/lib.rs
+++ b/ser_raw_derive_serializer/src/lib.rs
@@ -54,10 +54,10 @@ fn serializer_impl(input: DeriveInput) -> TokenStream {
 			use #ns as _ser_raw;
 			// Expose `ser_traits` for use within `methods_and_types` and `impls`,
 			// as it's commonly used
-			use _ser_raw::{Serializer, ser_traits};
+			use _ser_raw::ser_traits;
 
 			#[automatically_derived]
-			impl #impl_generics Serializer for #ser #type_generics #where_clause {
+			impl #impl_generics _ser_raw::Serializer for #ser #type_generics #where_clause {
 				type Storage = #storage_type;
 				type BorrowedStorage = #borrowed_storage_type;
 
diff --git a/ser_raw_derive_serializer/src/ser_types/complete.rs b/ser_raw_derive_serializer/src/ser_types/complete.rs
index 7c930b5..c4d3f9b 100644
--- a/ser_raw_derive_serializer/src/ser_types/complete.rs
+++ b/ser_raw_derive_serializer/src/ser_types/complete.rs
@@ -17,36 +17,36 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 
 		#[inline]
-		unsafe fn overwrite<T>(&mut self, addr: Self::Addr, value: &T) {
+		unsafe fn overwrite<__T>(&mut self, addr: Self::Addr, value: &__T) {
 			// Delegate to `Writable` trait's implementation
 			ser_traits::Writable::do_overwrite(self, addr, value);
 		}
 
 		#[inline]
-		fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
+		fn overwrite_with<__W: FnOnce(&mut Self)>(&mut self, write: __W) {
 			// Delegate to `Complete` trait's implementation
 			ser_traits::Complete::do_overwrite_with(self, write);
 		}
@@ -71,30 +71,27 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 		#pos_tracking_impl
 
 		const _: () = {
-			use _ser_raw::pos::Ptrs;
-			use ser_traits::{Complete, PtrWriting, Writable};
-
 			#[automatically_derived]
-			impl #impl_generics PtrWriting for #ser #type_generics #where_clause {
+			impl #impl_generics ser_traits::PtrWriting for #ser #type_generics #where_clause {
 				#[inline]
 				unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
 					// Delegate to `Complete` trait's implementation
-					Complete::do_overwrite_ptr(self, ptr_pos, target_pos);
+					ser_traits::Complete::do_overwrite_ptr(self, ptr_pos, target_pos);
 				}
 			}
 
 			#[automatically_derived]
-			impl #impl_generics Writable for #ser #type_generics #where_clause {}
+			impl #impl_generics ser_traits::Writable for #ser #type_generics #where_clause {}
 
 			#[automatically_derived]
-			impl #impl_generics Complete for #ser #type_generics #where_clause {
+			impl #impl_generics ser_traits::Complete for #ser #type_generics #where_clause {
 				#[inline]
-				fn ptrs(&self) -> &Ptrs {
+				fn ptrs(&self) -> &_ser_raw::pos::Ptrs {
 					&self.#ptrs
 				}
 
 				#[inline]
-				fn ptrs_mut(&mut self) -> &mut Ptrs {
+				fn ptrs_mut(&mut self) -> &mut _ser_raw::pos::Ptrs {
 					&mut self.#ptrs
 				}
 			}
diff --git a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
index 920e39d..5ecd402 100644
--- a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
+++ b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
@@ -19,21 +19,21 @@ fn get_methods() -> TokenStream {
 		// Delegate all methods to `PosTracking` trait's implementation
 
 		#[inline]
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			ser_traits::PosTracking::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
@@ -49,20 +49,17 @@ pub fn impl_pos_tracking(input: &DeriveInput, fields: &Vec<Field>) -> TokenStrea
 
 	quote! {
 		const _: () = {
-			use ser_traits::PosTracking;
-			use _ser_raw::pos::PosMapping;
-
 			#[automatically_derived]
-			impl #impl_generics PosTracking for #ser #type_generics #where_clause {
+			impl #impl_generics ser_traits::PosTracking for #ser #type_generics #where_clause {
 				/// Get current position mapping
 				#[inline]
-				fn pos_mapping(&self) -> &PosMapping {
+				fn pos_mapping(&self) -> &_ser_raw::pos::PosMapping {
 					&self.#pos_mapping
 				}
 
 				/// Set current position mapping
 				#[inline]
-				fn set_pos_mapping(&mut self, pos_mapping: PosMapping) {
+				fn set_pos_mapping(&mut self, pos_mapping: _ser_raw::pos::PosMapping) {
 					self.#pos_mapping = pos_mapping;
 				}
 			}
diff --git a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
index 9847dca..94c0882 100644
--- a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
+++ b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
@@ -16,23 +16,23 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
@@ -50,10 +50,8 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 		#pos_tracking_impl
 
 		const _: () = {
-			use ser_traits::{PtrOffset, PtrWriting};
-
 			#[automatically_derived]
-			impl #impl_generics PtrWriting for #ser #type_generics #where_clause {
+			impl #impl_generics ser_traits::PtrWriting for #ser #type_generics #where_clause {
 				/// Overwrite pointer.
 				///
 				/// # Safety
@@ -65,12 +63,12 @@ fn get_impls(input: &DeriveInput, fields: &Vec<Field>) -> TokenStream {
 				#[inline]
 				unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
 					// Delegate to `PtrOffset` trait's implementation
-					PtrOffset::do_overwrite_ptr(self, ptr_pos, target_pos);
+					ser_traits::PtrOffset::do_overwrite_ptr(self, ptr_pos, target_pos);
 				}
 			}
 
 			#[automatically_derived]
-			impl #impl_generics PtrOffset for #ser #type_generics #where_clause {}
+			impl #impl_generics ser_traits::PtrOffset for #ser #type_generics #where_clause {}
 		};
 	}
 }
-- 
2.43.0

