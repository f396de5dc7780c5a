From 9a34e82bde69d345fde1d849dfb71b7dba50e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/18] fix: clear the whole offset bitmask in Seq::take_elems

take_elems zeroed occupied_offsets before using it to decide how much of the
bitmask to clear, so nothing was cleared. Stale bits then made offsets in the
middle of later elements pass is_offset_valid(), and from_offset() hand out
references to garbage.
---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 2a9bab3084eb28c54939e988a03a9f7fd67aa725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 02/18] fix: do not drop the value in Owned::leak

The pattern `let Owned(mut ptr, _) = self` only copies the pointer out; self was
still dropped at the end of leak(), so the returned reference pointed to a
destroyed value.
---
 varlen/src/owned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..a2ddef5 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,8 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From 3f34289b988d584d433a4c32f9cfba3c1686e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 03/18] fix: copy bytes, not headers, when initializing from an
 Owned

copy_nonoverlapping counts in units of T, so moving an Owned<T> copied
size_of::<T>() * layout.size() bytes: far past the end of both buffers for
types with a header, and nothing at all for tuples, whose header is empty.
---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index a2ddef5..3ba8a84 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -218,7 +218,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From b5b6e71d37ac77d72b15bf3d15c6adb0cf4d25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/18] fix: report allocation failure in VBox::new

The result of alloc() was passed to NonNull::new_unchecked without a null check,
so running out of memory initialized the object at address 0.
---
 varlen/src/vbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..4bcdec4 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -59,6 +59,9 @@ impl<T: VarLen> VBox<T> {
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
             let p = alloc::alloc(alloc_layout) as *mut T;
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
-- 
2.43.0


From ca0040296ae95a530636af0e4fbb143c46fb1507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/18] fix: do not allocate zero bytes in VBox

Calling the global allocator with a zero-sized layout is undefined behavior;
VBox did so for zero-sized objects such as FixedLen<()>.
---
 varlen/src/vbox.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index 4bcdec4..a5757de 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,7 +58,12 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                // alloc() must not be called with size 0. Use a well-aligned dangling pointer.
+                core::ptr::null_mut::<u8>().wrapping_add(T::ALIGN) as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
             if p.is_null() {
                 alloc::handle_alloc_error(alloc_layout);
             }
@@ -153,7 +158,9 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            if alloc_layout.size() != 0 {
+                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            }
         }
     }
 }
@@ -191,7 +198,9 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        if size != 0 {
+            alloc::dealloc(ptr, layout);
+        }
         core::mem::forget(self);
     }
 
-- 
2.43.0


From bdb1faf169d66c383297e8bb79de314f0404f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/18] fix: make zero-sized elements of Seq occupy one offset

Zero-sized elements took no storage, so the sequence never allocated. Drop then
returned early without dropping the elements, and pushing to an indexable
sequence wrote the bitmask bit through a dangling pointer.
---
 varlen/src/seq.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..49988f0 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -486,6 +486,15 @@ fn round_up_fast(size: usize, align: usize) -> usize {
     size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)
 }
 
+/// Bytes from the start of an element of the given size to the start of the next one.
+///
+/// Zero-sized elements occupy one offset, so that they are stored (and thus found and dropped)
+/// like any other element, and have distinct offsets.
+#[inline(always)]
+fn stride_fast(size: usize, align: usize) -> usize {
+    round_up_fast(core::cmp::max(size, 1), align)
+}
+
 #[inline]
 fn try_realloc<Idx: Indexing>(
     ptr: NonNull<u8>,
@@ -670,7 +679,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Must match stride_fast().
+        let size = core::cmp::max(layout.size(), 1);
+        let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
@@ -1132,7 +1143,7 @@ impl<'a, T: VarLen> Iterator for Iter<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { self.ptr.as_ref() };
             let size = t.calculate_layout().size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, stride_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
         } else {
@@ -1218,7 +1229,7 @@ impl<'a, T: VarLen> Iterator for IterMut<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };
             let size = t.calculate_layout().size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, stride_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
         } else {
@@ -1303,7 +1314,7 @@ impl<'a, T: VarLen> Iterator for OwnedElems<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { Owned::from_raw(self.ptr) };
             let size = T::calculate_layout(&*t).size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, stride_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
         } else {
-- 
2.43.0


From b743b22f7cd6453daa696410fda40dc3a6227969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 07/18] fix: do not let users implement Unpin for types made by
 the macros

Safe code could write 'impl Unpin for S {}', and then use Pin::get_mut to
change the fields that control the layout.
---
 varlen/src/macro_support.rs |  8 ++++++++
 varlen/src/newtype.rs       |  8 ++++++++
 varlen_macro/src/lib.rs     | 11 +++++++++++
 3 files changed, 27 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..43c7f68 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -181,6 +181,14 @@ pub fn invalid_drop_call() -> ! {
     panic!("Called drop on a VarLen type; should have used vdrop instead")
 }
 
+/// Unpin if and only if `T` is.
+///
+/// `impl<'a> Unpin for S where UnpinIf<'a, T>: Unpin` makes `S` be Unpin if and only if `T` is. This
+/// is also what the compiler does by itself when `T` are the fields of `S`, but unlike that, it
+/// can't be overridden from safe code by another `impl Unpin for S`. The otherwise unused lifetime
+/// is there because bounds without generics are rejected when they are not met.
+pub struct UnpinIf<'a, T>(core::marker::PhantomData<&'a ()>, T);
+
 /// Error representing that a variable-length type was modified in a way which caused its
 /// layout to change.
 #[derive(Clone, Copy, Debug)]
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..ee2b381 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -207,6 +207,14 @@ macro_rules! define_varlen_newtype {
             }
         }
 
+        // Safety of `inner_mut` requires that outer is Unpin only if inner is, so don't leave it to
+        // the user to write this impl.
+        impl< '__varlen, $( $($($generic_params)*,)* )* > ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where
+            $crate::macro_support::UnpinIf<'__varlen, $inner>: ::core::marker::Unpin,
+        {
+        }
+
         unsafe impl< $( $($($generic_params)*,)* )* InnerInit: $crate::Initializer<$inner>> $crate::Initializer<$outer $(< $($($generics_apply)*),* >)* > for $init<InnerInit> {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<<$inner as $crate::VarLen>::Layout> {
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..8c2f912 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -251,6 +251,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
         = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
 
+    let where_predicates = d.generics.where_clause.iter().flat_map(|w| &w.predicates);
+
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
     let len_fn_arg = quote! {
@@ -341,6 +343,15 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
         }
 
+        // Unpin would allow modifying the fields that control the layout. Don't leave it to the user
+        // to write this impl.
+        impl<'__varlen, #(#generics_impl),*> ::core::marker::Unpin for #tyname<#(#generics_apply),*>
+        where
+            #(#where_predicates,)*
+            ::varlen::macro_support::UnpinIf<'__varlen, (#(#all_decl_ty,)*)>: ::core::marker::Unpin,
+        {
+        }
+
         unsafe impl<#(#generics_impl),*> ::varlen::VarLen for #tyname<#(#generics_apply),*> #generics_where {
             type Layout = #mod_name::VarLenLayout<#(#layout_generics_apply),*>;
 
-- 
2.43.0


From 1d6c4f6bca9fe5fe69bca6dbe204ff251599ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 08/18] fix: do not mark an offset as valid before its element
 is initialized

If the initializer panicked, the bit was left set, and take_elems() did not
clear it because it was past the end of the elements.
---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 49988f0..2fc4868 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -698,8 +698,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            // Only once initialized: initialize() may panic, and then there is no such element.
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 6f3332f32e48fc1dd0e727d5c4bca9853fdba464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 09/18] fix: swap in all layout controllers before dropping the
 old ones

A panic in the Drop of an old value left some controllers updated and some
not, so that the layout no longer matched the storage.
---
 varlen_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 8c2f912..1834f4b 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -463,7 +463,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
 
             #tyvis fn try_set_layout_controllers(
-                mut self: ::core::pin::Pin<&mut Self>, layout_controllers: #mod_name::LayoutControllers
+                mut self: ::core::pin::Pin<&mut Self>, mut layout_controllers: #mod_name::LayoutControllers
             ) -> ::core::result::Result<(), ::varlen::macro_support::LayoutMismatch> {
                 let lengths_before = (
                     #(
@@ -484,8 +484,10 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
+                    // Swap all of them before dropping any of the old ones: a panic in between would leave
+                    // a layout which doesn't match.
                     #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
+                        ::core::mem::swap(&mut self_mut.#lengths_ident, &mut layout_controllers.#lengths_ident);
                     )*
                     ::core::result::Result::Ok(())
                 } else {
-- 
2.43.0


From 6c72306f8528bc771a8b608eeede4e8090d2698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 10/18] fix: do not panic in define_varlen on raw identifiers
 and names without letters

Raw identifiers made invalid names like InitR#type, and struct names like __ an empty
module name, so that the macro panicked.
---
 varlen_macro/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 1834f4b..072f84f 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -8,6 +8,8 @@ use convert_case::{Case, Casing};
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
+use syn::ext::IdentExt;
+use syn::parse::Parser;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::token::Comma;
@@ -190,7 +192,15 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (tyvis, tyvis_inner) = SimpleVisibility::try_parse(&d.vis)?;
     let tyname = d.ident;
 
-    let mut mod_name = format_ident!("{}", tyname.to_string().to_case(Case::Snake));
+    let mod_name = tyname.unraw().to_string().to_case(Case::Snake);
+    // Not every name has a snake-case version that is an identifier.
+    let mut mod_name = match Ident::parse_any.parse_str(&mod_name) {
+        Ok(n) => n,
+        Err(_) => return Err(Error(
+            "define_varlen requires a struct name whose snake-case version is an identifier",
+            tyname.span(),
+        )),
+    };
     mod_name.set_span(proc_macro2::Span::call_site());
 
     let FieldGroups {
@@ -577,7 +587,7 @@ fn mk_layout_ident(ident: &Ident) -> Ident {
 }
 
 fn mk_init_ident(ident: &Ident) -> Ident {
-    format_ident!("Init{}", ident.to_string().to_case(Case::UpperCamel))
+    format_ident!("Init{}", ident.unraw().to_string().to_case(Case::UpperCamel))
 }
 
 #[derive(Clone)]
-- 
2.43.0


From 8fc0ad05edb1db742472c5d204ef28e651d49cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 11/18] fix: do not accept layout controllers with interior
 mutability

---
 varlen/src/macro_support.rs | 7 +++++++
 varlen_macro/src/lib.rs     | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index 43c7f68..c23fcba 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -164,6 +164,13 @@ pub unsafe fn ref_field<S, T>(base: &S, offset: usize) -> &T {
 }
 
 // Other
+
+/// Checks that values of the type can't change while shared.
+///
+/// A type is Sync only if shared access to it doesn't allow unsynchronized changes, and a
+/// synchronized value can't be read in a `const` function.
+pub const fn assert_layout_controller<T: Sync>() {}
+
 #[inline(always)]
 pub const fn array_max(arr: &[usize]) -> usize {
     let mut i = 0;
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 072f84f..0029a78 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -93,7 +93,9 @@ use syn::{Attribute, Data, DeriveInput, Field, Fields, Ident, Type, Visibility};
 /// * `#[controls_layout]` - this marks a field as usable to specify the
 ///   length of a `#[varlen_array]` field. It also removes mutable access
 ///   to the field. Mutable access risks causing memory unsafety, in which
-///   the length of the array is recorded incorrectly in memory.
+///   the length of the array is recorded incorrectly in memory. For the
+///   same reason, the type of the field must be `Sync`, which excludes types
+///   such as `Cell`.
 ///
 /// # Generated API
 ///
@@ -336,6 +338,11 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     #lengths_vis_inner #lengths_ident: #lengths_ty,
                 )*
             }
+
+            // Interior mutability, as in `Cell`, would allow changing the layout through a shared reference.
+            #(
+                const _: () = ::varlen::macro_support::assert_layout_controller::<#lengths_ty>();
+            )*
         }
 
         #ty_attrs
-- 
2.43.0


From 92d6368941fa0f13932c06caa0b7171267facc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 12/18] fix: make cat_field_fast unsafe, it trusts its caller

---
 varlen/src/macro_support.rs | 5 +++--
 varlen/src/tuple.rs         | 3 ++-
 varlen_macro/src/lib.rs     | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index c23fcba..10a6849 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -113,8 +113,9 @@ pub fn cat_field_cautious<Field: VarLen, Init: Initializer<Field>>(
     Some((offset, layout, size))
 }
 
+/// Safety: there must be a valid `Field` at `offset`, after alignment, from `parent`.
 #[inline(always)]
-pub fn cat_field_fast<Field: VarLen, Parent>(
+pub unsafe fn cat_field_fast<Field: VarLen, Parent>(
     parent: &Parent,
     offset: usize,
 ) -> (
@@ -126,7 +127,7 @@ pub fn cat_field_fast<Field: VarLen, Parent>(
     let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align);
 
     let child: &Field =
-        unsafe { &*((parent as *const Parent as *const u8).wrapping_add(offset) as *const Field) };
+        &*((parent as *const Parent as *const u8).wrapping_add(offset) as *const Field);
     let layout = child.calculate_layout();
 
     let size = offset.wrapping_add(layout.size());
diff --git a/varlen/src/tuple.rs b/varlen/src/tuple.rs
index e1c5e81..8c22de1 100644
--- a/varlen/src/tuple.rs
+++ b/varlen/src/tuple.rs
@@ -163,7 +163,8 @@ macro_rules! define_tuple {
             fn calculate_layout(&self) -> $mod::Layout<$($arg),*> {
                 let offset = core::mem::size_of::<Self>();
                 $(
-                    let ($offset, $layout, offset) = crate::macro_support::cat_field_fast::<$arg, _>(self, offset);
+                    let ($offset, $layout, offset) =
+                        unsafe { crate::macro_support::cat_field_fast::<$arg, _>(self, offset) };
                 )*
                 let size = offset;
                 $mod::Layout{size,
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 0029a78..4b12cd0 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -914,7 +914,7 @@ impl FieldGroups {
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, size)
+                unsafe { ::varlen::macro_support::cat_field_fast::<#ty, _>(self, size) }
             });
         self.varlen_fields
             .align_of_field
-- 
2.43.0


From a0a24b5a09c10973a44b5f1972c95569eafa5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 13/18] fix: do not call shadowing methods in the newtype
 macros

---
 varlen/src/newtype.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index ee2b381..dd0f901 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -192,7 +192,8 @@ macro_rules! define_varlen_newtype {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
             fn calculate_layout(&self) -> Self::Layout {
-                self.0.calculate_layout()
+                // Don't use a method of the same name on the inner type.
+                <$inner as $crate::VarLen>::calculate_layout(&self.0)
             }
 
             const ALIGN: usize = <$inner as $crate::VarLen>::ALIGN;
@@ -315,8 +316,9 @@ macro_rules! impl_initializer_as_newtype {
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$t>, layout: <$t as $crate::VarLen>::Layout) {
                 // Safety:
                 // * validity of dst is ensured by caller
-                // * layout matches what we called layout on above, on `self.0`
-                self.0.initialize(dst, layout);
+                // * layout matches what we called layout on above, on `self.0`. Don't use a method of
+                //   the same name on it.
+                $crate::Initializer::<$t>::initialize(self.0, dst, layout);
             }
         }
     }
-- 
2.43.0


From ac9840d668eecc26009457d7b048c6f8d3e46d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 14/18] fix: accept generic parameters without defaults in
 define_varlen

The size of the header was taken of the type without its generic arguments, which is an
error unless all of them have defaults.
---
 varlen_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 4b12cd0..acee702 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -427,7 +427,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname>();
+                let size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
                     let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
                 )*
-- 
2.43.0


From 2c9776393c101f395b6fb481fb96127dd001e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 15/18] fix: find generic parameters used as T::Item in
 define_varlen

---
 varlen_macro/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index acee702..ce9911c 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -697,6 +697,10 @@ impl<'ast> syn::visit::Visit<'ast> for GenericRefs {
                 self.idents.insert(ident.clone());
                 return;
             }
+            // As in `T::Item`.
+            if let Some(first) = node.path.segments.first() {
+                self.idents.insert(first.ident.clone());
+            }
         }
         if let Some(it) = &node.qself {
             self.visit_qself(it);
-- 
2.43.0


From 6839e9525b3bfc57f6a3913451584f04e1994236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 16/18] fix: let define_varlen fields have any names

Fields named size, lengths, x_len or x_layout (next to a field x), or
names that only differ in their case or underscores clashed with
generated names, and so did functions called in length expressions.
---
 varlen_macro/src/lib.rs | 49 ++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index ce9911c..746f93a 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -285,7 +285,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             /// Array offsets and lengths for all trailing arrays and nested types.
             #tyvis_inner struct VarLenLayout<#(#layout_generics_structdef),*> #layout_generics_where {
-                pub(super) size: usize,
+                pub(super) __varlen_size: usize,
                 #(
                     pub(super) #varlen_ident: usize,
                     pub(super) #varlen_layout_ident: #varlen_layout_ty,
@@ -295,7 +295,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             impl<#(#layout_generics_impl),*> ::varlen::Layout for VarLenLayout<#(#layout_generics_apply),*> #layout_generics_where {
                 #[inline(always)]
                 fn size(&self) -> usize {
-                    self.size
+                    self.__varlen_size
                 }
             }
 
@@ -374,21 +374,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             #[inline(always)]
             fn calculate_layout(&self) -> #mod_name::VarLenLayout<#(#layout_generics_apply),*> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<Self>();
+                let __varlen_size = ::core::mem::size_of::<Self>();
                 #(
-                    let ((#varlen_ident, #varlen_layout_ident, size)) = #varlen_cat_field_fast;
+                    let ((#varlen_ident, #varlen_layout_ident, __varlen_size)) = #varlen_cat_field_fast;
                 )*
                 #mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 }
             }
 
@@ -422,21 +422,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 #generics_where {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<#mod_name::VarLenLayout<#(#layout_generics_apply),*>> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
+                let __varlen_size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
-                    let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
+                    let (#varlen_ident, #varlen_layout_ident, __varlen_size) = #varlen_cat_field_cautious?;
                 )*
                 ::core::option::Option::Some(#mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 })
             }
 
@@ -590,11 +590,20 @@ impl SimpleVisibility {
 }
 
 fn mk_layout_ident(ident: &Ident) -> Ident {
-    format_ident!("{}_layout", ident)
+    format_ident!("__varlen_{}_layout", ident)
 }
 
-fn mk_init_ident(ident: &Ident) -> Ident {
-    format_ident!("Init{}", ident.unraw().to_string().to_case(Case::UpperCamel))
+fn mk_len_ident(ident: &Ident) -> Ident {
+    format_ident!("__varlen_{}_len", ident)
+}
+
+/// Name of the type parameter for the initializer of this field, different from the given names.
+fn mk_init_ident(ident: &Ident, others: &[Ident]) -> Ident {
+    let mut name = format_ident!("Init{}", ident.unraw().to_string().to_case(Case::UpperCamel));
+    while others.contains(&name) {
+        name = format_ident!("{}_", name);
+    }
+    name
 }
 
 #[derive(Clone)]
@@ -896,7 +905,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let layout_ident = mk_layout_ident(&ident);
-        let init_ident = mk_init_ident(&ident);
+        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -913,12 +922,12 @@ impl FieldGroups {
         self.varlen_fields
             .cat_field_cautious
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, size)
+                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
-                unsafe { ::varlen::macro_support::cat_field_fast::<#ty, _>(self, size) }
+                unsafe { ::varlen::macro_support::cat_field_fast::<#ty, _>(self, __varlen_size) }
             });
         self.varlen_fields
             .align_of_field
@@ -960,8 +969,8 @@ impl FieldGroups {
     fn push_varlen_array(&mut self, f: Field, mod_name: &Ident) -> Result<(), Error> {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
-        let len_ident = format_ident!("{}_len", &ident);
-        let init_ident = mk_init_ident(&ident);
+        let len_ident = mk_len_ident(&ident);
+        let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -997,13 +1006,13 @@ impl FieldGroups {
             .cat_field_cautious
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_cautious::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_fast::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .align_of_field
-- 
2.43.0


From 2929d0f338452584cd0b35f79abcd2fb6e603ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 17/18] fix: accept define_varlen structs that macro_rules
 macros write

Names in the generated code resolved where the type of the field was
written, not at the definition, and array types that are macro
arguments were not seen as array types.
---
 varlen_macro/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 746f93a..a6b3019 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -589,6 +589,12 @@ impl SimpleVisibility {
     }
 }
 
+/// Reports errors at the given span, but resolves names as any other code of this macro does,
+/// even if the field comes from a `macro_rules` argument.
+fn resolve_here(span: proc_macro2::Span) -> proc_macro2::Span {
+    span.resolved_at(proc_macro2::Span::call_site())
+}
+
 fn mk_layout_ident(ident: &Ident) -> Ident {
     format_ident!("__varlen_{}_layout", ident)
 }
@@ -835,7 +841,7 @@ impl FieldGroups {
     fn push_normal(&mut self, f: Field) -> Result<(), Error> {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
-        let span = f.ty.span();
+        let span = resolve_here(f.ty.span());
         let ty = f.ty;
 
         self.all_fields.meta.push(meta);
@@ -868,7 +874,7 @@ impl FieldGroups {
     fn push_length(&mut self, f: Field) -> Result<(), Error> {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
-        let span = f.ty.span();
+        let span = resolve_here(f.ty.span());
         let ty = f.ty;
 
         self.lengths.meta.push(meta.clone());
@@ -906,7 +912,7 @@ impl FieldGroups {
         let ident = f.ident.unwrap();
         let layout_ident = mk_layout_ident(&ident);
         let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
-        let span = f.ty.span();
+        let span = resolve_here(f.ty.span());
         let ty = f.ty;
 
         self.varlen_fields.meta.push(meta.clone());
@@ -971,10 +977,15 @@ impl FieldGroups {
         let ident = f.ident.unwrap();
         let len_ident = mk_len_ident(&ident);
         let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
-        let span = f.ty.span();
+        let span = resolve_here(f.ty.span());
         let ty = f.ty;
 
-        let (elem_ty, len_expr) = match &ty {
+        let mut array_ty = &ty;
+        // The type may come from a `macro_rules` argument.
+        while let Type::Group(g) = array_ty {
+            array_ty = &g.elem;
+        }
+        let (elem_ty, len_expr) = match array_ty {
             Type::Array(a) => {
                 let len = &a.len;
                 ((*a.elem).clone(), quote_spanned! {len.span()=> #len})
-- 
2.43.0


From 6b97a49ef8b856a8339779c96cc8a0f47cb4a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 18/18] fix: resolve super:: and self:: in define_varlen as in
 the user's module

Field types, bounds and length expressions are copied into generated
modules, where paths that start with super or self mean something else:
they were rejected, or quietly meant another item of the same name.
---
 varlen_macro/src/lib.rs | 81 ++++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index a6b3019..ca0ceb6 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -5,7 +5,7 @@
 use std::collections::HashSet;
 
 use convert_case::{Case, Casing};
-use proc_macro2::TokenStream;
+use proc_macro2::{Group, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
 use syn::ext::IdentExt;
@@ -265,6 +265,17 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
     let where_predicates = d.generics.where_clause.iter().flat_map(|w| &w.predicates);
 
+    // In module `#mod_name`, and in its module `lengths`.
+    let lengths_ty_mod: Vec<_> = lengths_ty.iter().map(|ty| from_inner_mod(quote!(#ty), 1)).collect();
+    let lengths_ty_inner: Vec<_> = lengths_ty.iter().map(|ty| from_inner_mod(quote!(#ty), 2)).collect();
+    let generics_structdef_mod: Vec<_> =
+        generics_structdef.iter().map(|g| from_inner_mod(quote!(#g), 1)).collect();
+    let layout_generics_structdef =
+        layout_generics_structdef.iter().map(|g| from_inner_mod(quote!(#g), 1));
+    let layout_generics_impl =
+        layout_generics_impl.iter().map(|g| from_inner_mod(quote!(#g), 1));
+    let layout_generics_where = from_inner_mod(layout_generics_where, 1);
+
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
     let len_fn_arg = quote! {
@@ -274,7 +285,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             )*
         ): (
             #(
-                & #lengths_ty,
+                & #lengths_ty_inner,
             )*
         )
     };
@@ -318,14 +329,14 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 )*
             }
 
-            #tyvis_inner struct Muts<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Muts<'a #(, #generics_structdef_mod)*> {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_mut_ty,
                 )*
             }
 
-            #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Refs<'a #(, #generics_structdef_mod)*> {
                 #(
                     #all_attr
                     #all_vis_inner #all_ident: #all_ref_ty,
@@ -335,13 +346,13 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             #tyvis_inner struct LayoutControllers {
                 #(
                     #lengths_attr
-                    #lengths_vis_inner #lengths_ident: #lengths_ty,
+                    #lengths_vis_inner #lengths_ident: #lengths_ty_mod,
                 )*
             }
 
             // Interior mutability, as in `Cell`, would allow changing the layout through a shared reference.
             #(
-                const _: () = ::varlen::macro_support::assert_layout_controller::<#lengths_ty>();
+                const _: () = ::varlen::macro_support::assert_layout_controller::<#lengths_ty_mod>();
             )*
         }
 
@@ -589,6 +600,36 @@ impl SimpleVisibility {
     }
 }
 
+/// Makes code that the user wrote mean the same thing when moved into a module of the user's module
+/// (or, for more levels, into a module of that one, and so on), where the names of the user's module
+/// are imported: adapts paths that start with `self` or `super`.
+fn from_inner_mod(tokens: TokenStream, levels: usize) -> TokenStream {
+    let tokens: Vec<TokenTree> = tokens.into_iter().collect();
+    let colon = |i: usize| matches!(tokens.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ':');
+    let separator = |i: usize| colon(i) && colon(i + 1);
+    let mut result = TokenStream::new();
+    for (i, token) in tokens.iter().enumerate() {
+        match token {
+            TokenTree::Group(g) => {
+                let mut group = Group::new(g.delimiter(), from_inner_mod(g.stream(), levels));
+                group.set_span(g.span());
+                result.extend(Some(TokenTree::Group(group)));
+            }
+            TokenTree::Ident(ident)
+                if (ident == "self" || ident == "super")
+                    && separator(i + 1)
+                    && !(i >= 2 && separator(i - 2)) =>
+            {
+                let up = quote_spanned!(ident.span() => super);
+                let supers = (0..levels + (ident == "super") as usize).map(|_| &up);
+                result.extend(quote!(#(#supers)::*));
+            }
+            token => result.extend(Some(token.clone())),
+        }
+    }
+    result
+}
+
 /// Reports errors at the given span, but resolves names as any other code of this macro does,
 /// even if the field comes from a `macro_rules` argument.
 fn resolve_here(span: proc_macro2::Span) -> proc_macro2::Span {
@@ -843,16 +884,17 @@ impl FieldGroups {
         let ident = f.ident.unwrap();
         let span = resolve_here(f.ty.span());
         let ty = f.ty;
+        let ty_mod = from_inner_mod(quote!(#ty), 1);
 
         self.all_fields.meta.push(meta);
         self.all_fields.decl_ty.push(quote_spanned! { span => #ty });
-        self.all_fields.init_ty.push(quote_spanned! { span => #ty });
+        self.all_fields.init_ty.push(quote_spanned! { span => #ty_mod });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'a #ty_mod });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a mut #ty });
+            .push(quote_spanned! { span => &'a mut #ty_mod });
         self.all_fields
             .init_field
             .push(quote_spanned! { span => self.#ident });
@@ -876,19 +918,20 @@ impl FieldGroups {
         let ident = f.ident.unwrap();
         let span = resolve_here(f.ty.span());
         let ty = f.ty;
+        let ty_mod = from_inner_mod(quote!(#ty), 1);
 
         self.lengths.meta.push(meta.clone());
         self.lengths.tys.push(ty.clone());
 
         self.all_fields.meta.push(meta);
         self.all_fields.decl_ty.push(quote_spanned! { span => #ty });
-        self.all_fields.init_ty.push(quote_spanned! { span => #ty });
+        self.all_fields.init_ty.push(quote_spanned! { span => #ty_mod });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'a #ty_mod });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'a #ty_mod });
         self.all_fields
             .init_field
             .push(quote_spanned! { span => self.#ident });
@@ -914,6 +957,7 @@ impl FieldGroups {
         let init_ident = mk_init_ident(&ident, &self.varlen_fields.init_ty_params);
         let span = resolve_here(f.ty.span());
         let ty = f.ty;
+        let ty_mod = from_inner_mod(quote!(#ty), 1);
 
         self.varlen_fields.meta.push(meta.clone());
         self.varlen_fields.init_ty_params.push(init_ident.clone());
@@ -923,7 +967,7 @@ impl FieldGroups {
         self.varlen_fields.layout_idents.push(layout_ident.clone());
         self.varlen_fields
             .layout_ty
-            .push(quote_spanned! { span => <#ty as ::varlen::VarLen>::Layout });
+            .push(quote_spanned! { span => <#ty_mod as ::varlen::VarLen>::Layout });
         self.varlen_fields.layout_ty_refs.add(&ty);
         self.varlen_fields
             .cat_field_cautious
@@ -950,10 +994,10 @@ impl FieldGroups {
             .push(quote_spanned! { span => #init_ident });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a #ty });
+            .push(quote_spanned! { span => &'a #ty_mod });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => ::core::pin::Pin<&'a mut #ty> });
+            .push(quote_spanned! { span => ::core::pin::Pin<&'a mut #ty_mod> });
         self.all_fields.init_field.push(quote_spanned! { span =>
             ::varlen::macro_support::init_field(self.#ident, p, layout.#ident, layout.#layout_ident)
         });
@@ -988,7 +1032,7 @@ impl FieldGroups {
         let (elem_ty, len_expr) = match array_ty {
             Type::Array(a) => {
                 let len = &a.len;
-                ((*a.elem).clone(), quote_spanned! {len.span()=> #len})
+                ((*a.elem).clone(), from_inner_mod(quote_spanned! {len.span()=> #len}, 2))
             }
             _ => {
                 return Err(Error(
@@ -997,6 +1041,7 @@ impl FieldGroups {
                 ))
             }
         };
+        let elem_ty_mod = from_inner_mod(quote!(#elem_ty), 1);
         let len_span = len_expr.span();
 
         self.len_exprs
@@ -1040,10 +1085,10 @@ impl FieldGroups {
             .push(quote_spanned! { span => ::varlen::marker::ArrayMarker<#elem_ty> });
         self.all_fields
             .ref_ty
-            .push(quote_spanned! { span => &'a [#elem_ty] });
+            .push(quote_spanned! { span => &'a [#elem_ty_mod] });
         self.all_fields
             .mut_ty
-            .push(quote_spanned! { span => &'a mut [#elem_ty] });
+            .push(quote_spanned! { span => &'a mut [#elem_ty_mod] });
         self.all_fields.init_field.push(quote_spanned! { span =>
             ::varlen::macro_support::init_array(self.#ident, p, layout.#ident, layout.#len_ident)
         });
-- 
2.43.0

