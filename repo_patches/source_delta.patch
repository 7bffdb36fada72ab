From 7cd5655f29fb533a802bc20365811b2e0c0b351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 01/27] fix: return an error instead of panicking when a
 `Duration` overflows

---
 src/error.rs         | 1 -
 src/readable_impl.rs | 7 ++++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..531ceba 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,7 +199,6 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..84fd5e7 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,12 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+
+        // We can't use `Duration::new( secs, nanos )` here, as that panics
+        // if the carry from the nanoseconds overflows the seconds.
+        core::time::Duration::from_secs( secs )
+            .checked_add( core::time::Duration::new( 0, nanos ) )
+            .ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From cf50d4dd34adb65c7142b9d747f071fee6f5cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 02/27] fix: return an error instead of panicking on an out of
 range `DateTime`

---
 src/ext_chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From 31979415efd87769568ec5bf1162ea08f68aff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 03/27] fix: correctly undo the zigzag transformation when
 converting a `VarInt64` into an `i64`

---
 src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..bf32843 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -99,7 +99,7 @@ impl From< VarInt64 > for i64 {
     #[inline]
     fn from( value: VarInt64 ) -> Self {
         let value = value.0;
-        ((value >> 1) ^ (value << 15)) as i64
+        ((value >> 1) as i64) ^ -((value & 1) as i64)
     }
 }
 
-- 
2.43.0


From c18415ce21b707a4c142caebe41668cae870c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 04/27] fix: do not include the first byte in the payload when
 peeking a multi-byte varint

---
 src/varint.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/varint.rs b/src/varint.rs
index bf32843..6f270dc 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -104,8 +104,8 @@ impl From< VarInt64 > for i64 {
 }
 
 macro_rules! impl_read {
-    ($reader:ident, $read_u8:ident, $read_bytes:ident) => {{
-        let first_byte = $reader.$read_u8()?;
+    ($reader:ident) => {{
+        let first_byte = $reader.read_u8()?;
         let length = (!first_byte).leading_zeros();
 
         let upper_mask = 0b11111111_u64 >> length;
@@ -116,7 +116,7 @@ macro_rules! impl_read {
                 let mut value: u64 = 0;
                 {
                     let slice = unsafe { core::slice::from_raw_parts_mut( &mut value as *mut u64 as *mut u8, $count ) };
-                    $reader.$read_bytes( slice )?;
+                    $reader.read_bytes( slice )?;
                 }
                 value = value.to_le();
                 Ok( VarInt64( upper_bits | value ) )
@@ -149,7 +149,7 @@ macro_rules! impl_read {
 impl< 'a, C: Context > Readable< 'a, C > for VarInt64 {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
-        impl_read!( reader, read_u8, read_bytes )
+        impl_read!( reader )
     }
 
     #[inline]
@@ -164,7 +164,20 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros();
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length * 8 );
+
+        // Peeking always starts from the current position, so we have to peek the first byte again.
+        let length = length as usize;
+        let mut buffer = [0; 9];
+        reader.peek_bytes( &mut buffer[ ..length + 1 ] )?;
+
+        let mut value = [0; 8];
+        value[ ..length ].copy_from_slice( &buffer[ 1..length + 1 ] );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From 3cebcf1bba7e436c2d87234bf1c73eae7f792e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 05/27] fix: retry interrupted reads when filling the stream
 reader's buffer

---
 src/readable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..65ce220 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,17 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+/// Reads from a given reader, retrying when interrupted, just like `Read::read_exact` does.
+#[cfg(feature = "std")]
+fn read_uninterrupted( reader: &mut impl Read, buffer: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( buffer ) {
+            Err( error ) if error.kind() == std::io::ErrorKind::Interrupted => {},
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +315,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +374,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From 6c7091f4329c9955ae79d97b4708d6dd391df671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/27] fix: flush the file in `write_to_file` so that write
 errors are not lost

---
 src/writable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..dbd041f 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,14 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+
+        // Dropping a `BufWriter` would silently ignore any error here.
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From 4fc816aab7ab79d39fe45b201b50bfaf2a77deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 07/27] fix: treat reading from a too small input buffer as an
 end of input

---
 src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.rs b/src/error.rs
index 531ceba..05b3caa 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -128,6 +128,7 @@ impl IsEof for Error {
     fn is_eof( &self ) -> bool {
         match self.kind {
             ErrorKind::UnexpectedEndOfInput |
+            ErrorKind::InputBufferIsTooSmall { .. } |
             ErrorKind::UnexpectedEndOfOutputBuffer => true,
 
             #[cfg(feature = "std")]
-- 
2.43.0


From a068381602a481d3145cfb56eb9a1c549051f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 08/27] fix: check for an overflow when calculating the size of
 a borrowed slice in `read_cow`

---
 src/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..f4ef203 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -599,9 +599,11 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            // If this overflows then the input can't possibly be long enough.
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From f946b6581e2a15d966fefbb469a87057b8faf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 09/27] fix: do not crash in `read_vec` on lengths which cannot
 be allocated, and do read elements which occupy no memory

---
 src/reader.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f4ef203..68bb24e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -522,11 +522,33 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >
     {
         let (required, overflow) = T::minimum_bytes_needed().overflowing_mul( length );
-        if overflow || self.can_read_at_least( required ) == Some( false ) {
+        let can_read = self.can_read_at_least( required );
+        if overflow || can_read == Some( false ) {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        if mem::size_of::< T >() == 0 || T::minimum_bytes_needed() == 0 {
+            // Either there is nothing to preallocate, or the check above tells us nothing
+            // about how many elements there really are, so we can't trust the length.
+            let mut vec = Vec::new();
+            for _ in 0..length {
+                vec.push( self.read_value()? );
+            }
+
+            return Ok( vec );
+        }
+
+        let mut vec = if can_read.is_some() {
+            Vec::with_capacity( length )
+        } else {
+            let mut vec = Vec::new();
+            if vec.try_reserve_exact( length ).is_err() {
+                return Err( crate::error::error_out_of_range_length() );
+            }
+
+            vec
+        };
+
         if T::speedy_is_primitive() {
             unsafe {
                 self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
-- 
2.43.0


From 097827619d6a0a5e41085649700aa2afd61d317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 10/27] fix: do not divide by zero when reading collections of
 primitive structs which occupy no memory

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 68bb24e..7627615 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -620,7 +620,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >,
               [T]: ToOwned< Owned = Vec< T > >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             // If this overflows then the input can't possibly be long enough.
             let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
             if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
@@ -666,7 +666,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where U: FromIterator< T >,
               T: Readable< 'a, C >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
             })?;
@@ -692,7 +692,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         #[repr(packed)]
         struct Pair< K, V >( K, V );
 
-        if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
+        if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture()
             })?;
-- 
2.43.0


From 6bd88b9111b47b8dc538147ec1ae814ebac86fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 11/27] fix: derive `speedy_flip_endianness` for transparent
 structs so that they can be nested inside of primitive structs

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..12285f8 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty );
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From 328bcd69ec9fb4d22b86e785bbf6dbd90bd826ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 12/27] fix: do not treat structs with field attributes which
 change the format as primitive just because of their `repr`

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 12285f8..ff6bab5 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2132,12 +2132,13 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
     }
 
     let can_be_primitive = is_forced || structure.fields.iter().all( |field| field.can_be_primitive() );
+    let is_ty_transparent = is_ty_transparent && can_be_primitive;
     IsPrimitiveResult {
         is_ty_packed,
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From d5f66776a1159c37439195bb915fd71a96f41892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 13/27] fix: do not overestimate the minimum size of enums with
 `peek_tag`

---
 speedy-derive/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ff6bab5..265a002 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2259,6 +2259,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let enumeration = Enum::new( &name, &input.attrs, &variants )?;
             let mut variant_matches = Vec::with_capacity( variants.len() );
             let mut variant_minimum_sizes = Vec::with_capacity( variants.len() );
+            let mut are_all_sizes_known = true;
             for variant in enumeration.variants {
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
@@ -2274,7 +2275,11 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 if variant.structure.kind != StructKind::Unit {
                     if variant.structure.is_guaranteed_non_recursive() {
                         variant_minimum_sizes.push( minimum_bytes );
+                    } else {
+                        are_all_sizes_known = false;
                     }
+                } else if enumeration.peek_tag {
+                    are_all_sizes_known = false;
                 }
             }
 
@@ -2310,12 +2315,19 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     _ => Err( speedy::private::error_invalid_enum_variant() )
                 }
             };
-            let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
             let minimum_bytes_needed_body =
                 if !enumeration.peek_tag {
+                    let minimum_bytes_needed_body = min( variant_minimum_sizes.into_iter() );
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
+                } else if are_all_sizes_known && !variant_minimum_sizes.is_empty() {
+                    // The tag itself is not consumed, so only the sizes of the variants matter here.
+                    quote! {{
+                        let mut out = core::usize::MAX;
+                        #(out = core::cmp::min( out, #variant_minimum_sizes );)*
+                        out
+                    }}
                 } else {
-                    quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
+                    quote! { 0 }
                 };
 
             (reader_body, minimum_bytes_needed_body, quote! {}, quote! {})
-- 
2.43.0


From 3bc9027037ab689119b5a0af0886c2302218635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 14/27] fix: return an error instead of creating misaligned
 references when borrowing slices from unaligned input

---
 speedy-derive/src/lib.rs     |  6 +++---
 src/error.rs                 |  7 +++++++
 src/private.rs               | 23 ++++++++++++++++++++++-
 src/readable_unsized_impl.rs | 15 +++++----------
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 265a002..5174c5e 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,14 +1580,14 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| unsafe { speedy::private::cast_slice::< #inner_ty, _ >( slice, _length_ ) } )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
+                    .and_then( |slice| unsafe {
+                        speedy::private::cast_slice::< #inner_ty, _ >( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
                     })
             }}
         }
diff --git a/src/error.rs b/src/error.rs
index 05b3caa..fffe9c7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    UnalignedInput,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::UnalignedInput => write!( fmt, "input is not sufficiently aligned for zero-copy deserialization" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -220,3 +222,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_unaligned_input< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::UnalignedInput ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..0d7e231 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -8,8 +8,10 @@ use {
     },
 };
 
+use crate::Error;
+
 #[cfg(feature = "alloc")]
-use crate::{Error, error::{error_expected_constant, error_invalid_string_utf8}};
+use crate::error::{error_expected_constant, error_invalid_string_utf8};
 
 #[cfg(feature = "alloc")]
 use alloc::{borrow::Cow, string::String, vec::Vec};
@@ -54,6 +56,25 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
     }
 }
 
+/// Reinterprets bytes as a slice of `length` elements; fails if the bytes are not aligned.
+///
+/// `T` must be valid for any bit pattern and there must be enough bytes for all of the elements.
+#[inline]
+pub unsafe fn cast_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E > where E: From< Error > {
+    debug_assert!( bytes.len() >= length * core::mem::size_of::< T >() );
+    if length == 0 {
+        return Ok( &[] );
+    }
+
+    if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        return Err( crate::error::error_unaligned_input() );
+    }
+
+    unsafe {
+        Ok( core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) )
+    }
+}
+
 #[inline]
 pub fn write_length_u64_varint< C, W >( length: usize, writer: &mut W ) -> Result< (), C::Error >
     where C: Context,
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..c6d8432 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe { crate::private::cast_slice( bytes, length ) }
     }
 
     #[inline]
@@ -55,10 +52,9 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
 }
 
 #[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
+unsafe fn cast_slice< T, E, const N: usize >( bytes: &[u8] ) -> Result< &[T; N], E > where E: From< crate::Error > {
+    let slice: &[T] = unsafe { crate::private::cast_slice( bytes, N )? };
+    Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
 }
 
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
@@ -69,8 +65,7 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        unsafe { cast_slice( bytes ) }
     }
 
     #[inline]
-- 
2.43.0


From fcf3ec77ecea83ae5f1375f397046a248d61ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 15/27] fix: allow `skip` on the fields of enum variants

---
 speedy-derive/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 5174c5e..a16fafd 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1815,22 +1815,30 @@ fn write_field_body( field: &Field ) -> TokenStream {
 }
 
 fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream) {
-    let mut field_names = Vec::new();
+    let mut field_patterns = Vec::new();
     let mut field_writers = Vec::new();
     for field in &st.fields {
         if field.skip {
+            field_patterns.push( match st.kind {
+                StructKind::Named => {
+                    let name = field.name();
+                    quote! { #name: _ }
+                },
+                _ => quote! { _ }
+            });
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        let name = field.var_name();
+        field_patterns.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_patterns),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0


From 87028603b29ca013f8458e5887ff66330dd6c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 16/27] fix: bound the type inside of an `Option` field when
 deriving for generic types

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index a16fafd..061b5da 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -801,7 +801,7 @@ impl< 'a > Field< 'a > {
             | Ty::CowStr( .. )
             | Ty::Primitive( .. )
                 => vec![],
-            | Ty::Ty( _ ) => vec![ self.raw_ty.clone() ]
+            | Ty::Ty( ty ) => vec![ ty.clone() ]
         }
     }
 
-- 
2.43.0


From 740a241fda6c1baa541309a0efba3c3ed22fa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 17/27] fix: do not panic in the derive macro on a constant
 prefix of `-128i8`

---
 speedy-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 061b5da..b31d1f7 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -916,7 +916,12 @@ impl syn::parse::Parse for FieldAttribute {
                             match literal {
                                 syn::Lit::Int( literal ) => {
                                     if literal.suffix() == "i8" {
-                                        vec![ (literal.base10_parse::< i8 >().unwrap() * -1) as u8 ]
+                                        let value = literal.base10_parse::< u8 >()?;
+                                        if value > 128 {
+                                            return Err( syn::Error::new( value_span, "the constant is out of range for `i8`" ) );
+                                        }
+
+                                        vec![ value.wrapping_neg() ]
                                     } else if literal.suffix() == "u8" {
                                         return generic_error()
                                     } else {
-- 
2.43.0


From 255fabae8a3c2bf6ebec3bdc40901cd0c5522a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 18/27] fix: read pipes, devices and other files without a size
 as streams instead of treating them as empty

---
 src/readable.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/readable.rs b/src/readable.rs
index 65ce220..68345cb 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -657,6 +657,15 @@ pub trait Readable< 'a, C: Context >: Sized {
                 }
             }
 
+            // Pipes, devices and the like report no size and cannot be memory mapped.
+            let metadata = stream.metadata().map_err( |error| {
+                let error = Error::from_io_error( error );
+                <C::Error as From< Error >>::from( error )
+            })?;
+            if metadata.len() == 0 {
+                return Self::read_from_stream_buffered_with_ctx( context, stream );
+            }
+
             let mut mmap = Mmap::open( &stream )?;
             unsafe {
                 mmap.madvise( MADV_SEQUENTIAL )?;
-- 
2.43.0


From cdfb5cb4e744bbe3e7d4e7a740f2a287a5ab3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 19/27] fix: make the encoding of Ipv6Addr independent of the
 machine's byte order

---
 src/readable_impl.rs | 2 +-
 src/writable_impl.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 84fd5e7..71980a3 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -527,7 +527,7 @@ impl< 'a, C > Readable< 'a, C > for core::net::Ipv6Addr where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let mut octets = [0; 16];
         reader.read_bytes( &mut octets )?;
-        if !reader.endianness().conversion_necessary() {
+        if reader.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index da28115..5bf94aa 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -615,7 +615,7 @@ impl< C > Writable< C > for core::net::Ipv6Addr where C: Context {
     #[inline]
     fn write_to< W >( &self, writer: &mut W ) -> Result< (), C::Error > where W: ?Sized + Writer< C > {
         let mut octets = self.octets();
-        if !writer.endianness().conversion_necessary() {
+        if writer.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
-- 
2.43.0


From d6066fed0a51dc5c785518081556b0f7b8a20cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 20/27] fix: only allow deriving `Readable` with borrowed
 slices of elements for which every bit pattern is valid

---
 speedy-derive/src/lib.rs | 26 ++++++++++++++++++++++----
 src/private.rs           |  1 +
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index b31d1f7..b5fcba3 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -805,6 +805,13 @@ impl< 'a > Field< 'a > {
         }
     }
 
+    fn borrowed_element_type( &self ) -> Option< &syn::Type > {
+        match self.ty.inner() {
+            Ty::RefSlice( _, inner_ty ) => Some( inner_ty ),
+            _ => None
+        }
+    }
+
     fn is_guaranteed_non_recursive( &self ) -> bool {
         is_guaranteed_non_recursive( &self.raw_ty )
     }
@@ -1682,7 +1689,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
     }
 }
 
-fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
+fn readable_body< 'a >( types: &mut Vec< syn::Type >, borrowed_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
     let mut field_names = Vec::new();
     let mut field_readers = Vec::new();
     let mut minimum_bytes_needed = Vec::new();
@@ -1693,6 +1700,7 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (To
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
         types.extend( field.bound_types() );
+        borrowed_types.extend( field.borrowed_element_type().cloned() );
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
@@ -2159,6 +2167,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
 fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error > {
     let name = &input.ident;
     let mut types = Vec::new();
+    let mut borrowed_types = Vec::new();
 
     let (reader_body, minimum_bytes_needed_body, impl_primitive, impl_zerocopyable) = match &input.data {
         syn::Data::Struct( syn::DataStruct { ref fields, .. } ) => {
@@ -2166,7 +2175,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let attrs = collect_toplevel_struct_attributes( attrs )?;
             let structure = Struct::new( fields, &attrs )?;
             let is_primitive = check_is_primitive( &input, &structure, &attrs );
-            let (body, initializer, minimum_bytes) = readable_body( &mut types, &structure );
+            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut borrowed_types, &structure );
             let reader_body = quote! {
                 #body
                 Ok( #name #initializer )
@@ -2277,7 +2286,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
-                let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
+                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut borrowed_types, &variant.structure );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2351,7 +2360,16 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Readable );
+    let (impl_params, ty_params, mut where_clause) = common_tokens( &input, &types, Trait::Readable );
+    if !borrowed_types.is_empty() {
+        // These are borrowed directly from the input, so every bit pattern has to be valid for them.
+        // The endianness is checked when reading.
+        let separator = if where_clause.is_empty() { quote! { where } } else { quote! { , } };
+        where_clause = quote! {
+            #where_clause #separator #(#borrowed_types: speedy::private::ZeroCopyable< speedy::private::NativeContext, C_ >),*
+        };
+    }
+
     let output = quote! {
         impl< 'a_, #impl_params C_: speedy::Context > speedy::Readable< 'a_, C_ > for #name #ty_params #where_clause {
             #[inline]
diff --git a/src/private.rs b/src/private.rs
index 0d7e231..924ca19 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -29,6 +29,7 @@ pub use crate::error::{
 
     get_error_kind,
 };
+pub use crate::context::NativeContext;
 pub use crate::utils::ZeroCopyable;
 
 pub use memoffset::offset_of;
-- 
2.43.0


From 966712ef934e7e823bef3b6a74b1c72f104ea794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 21/27] fix: don't assume that slices of zero-sized elements
 are shorter than half of the address space

---
 src/writable_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index 5bf94aa..a129c59 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -260,7 +260,10 @@ impl< C: Context, T: Writable< C > > Writable< C > for [T] {
 
     #[inline]
     fn bytes_needed( &self ) -> Result< usize, C::Error > {
-        unsafe_is_length!( self.len() );
+        // There can be any number of elements if they don't need any memory.
+        if mem::size_of::< T >() != 0 {
+            unsafe_is_length!( self.len() );
+        }
 
         if T::speedy_is_primitive() {
             return Ok( 4 + self.len() * mem::size_of::< T >() );
-- 
2.43.0


From fae45cba5746e6c686ba4e1543dcb335630b4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 22/27] fix: don't trust a reader to return as many borrowed
 bytes as were asked for

---
 src/private.rs | 3 ++-
 src/reader.rs  | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/private.rs b/src/private.rs
index 924ca19..5666c25 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -62,7 +62,8 @@ pub fn cow_bytes_to_cow_str< E >( bytes: Cow<'_, [u8] > ) -> Result< Cow<'_, str
 /// `T` must be valid for any bit pattern and there must be enough bytes for all of the elements.
 #[inline]
 pub unsafe fn cast_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E > where E: From< Error > {
-    debug_assert!( bytes.len() >= length * core::mem::size_of::< T >() );
+    // Readers can be implemented by anyone, so we can't trust them on this.
+    assert!( bytes.len() >= length * core::mem::size_of::< T >() );
     if length == 0 {
         return Ok( &[] );
     }
diff --git a/src/reader.rs b/src/reader.rs
index 7627615..4f907eb 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -673,6 +673,8 @@ pub trait Reader< 'a, C: Context >: Sized {
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
+                assert_eq!( bytes.len(), bytesize );
+
                 unsafe {
                     let pointer = bytes.as_ptr().cast::< T >();
                     return Ok( RawCopyIter { pointer: core::ptr::NonNull::new_unchecked( pointer as *mut T ), end: pointer.add( length ) }.collect() );
@@ -699,6 +701,8 @@ pub trait Reader< 'a, C: Context >: Sized {
 
             if let Some( bytes ) = self.read_bytes_borrowed_from_reader( bytesize ) {
                 let bytes = bytes?;
+                assert_eq!( bytes.len(), bytesize );
+
                 unsafe {
                     let pointer = bytes.as_ptr().cast::< Pair< K, V > >();
                     return Ok( RawCopyIter { pointer: core::ptr::NonNull::new_unchecked( pointer as *mut Pair< K, V > ), end: pointer.add( length ) }.map( |pair| (pair.0, pair.1) ).collect() );
-- 
2.43.0


From 4250b8d238fc87a19e77936c59565e2c9aa0fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 23/27] fix: never show uninitialized memory to user-provided
 streams and readers

Implementations of `std::io::Read` and of `Reader::read_bytes` are safe code which may look
at what it is given, or claim to have filled a buffer which it did not touch.
---
 src/circular_buffer.rs | 15 +++------------
 src/reader.rs          | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/circular_buffer.rs b/src/circular_buffer.rs
index 8321eb5..6eea6ce 100644
--- a/src/circular_buffer.rs
+++ b/src/circular_buffer.rs
@@ -215,16 +215,9 @@ impl CircularBuffer {
     }
 
     pub fn with_capacity( capacity: usize ) -> Self {
-        let mut buffer = Vec::with_capacity( capacity );
-        unsafe {
-            buffer.set_len( capacity );
-            if cfg!( debug_assertions ) {
-                std::ptr::write_bytes( buffer.as_mut_ptr(), 0xFF, buffer.len() );
-            }
-        }
-
         CircularBuffer {
-            buffer: buffer.into_boxed_slice(),
+            // This has to be initialized as we're going to give it to readers we know nothing about.
+            buffer: vec![ 0; capacity ].into_boxed_slice(),
             position: 0,
             length: 0
         }
@@ -271,9 +264,7 @@ impl CircularBuffer {
         }
 
         new_capacity = new_buffer.capacity();
-        unsafe {
-            new_buffer.set_len( new_capacity );
-        }
+        new_buffer.resize( new_capacity, 0 );
 
         let (a, b) = occupied( self.position, self.length, self.buffer.len() );
         new_buffer[ 0..a.len() ].copy_from_slice( &self.buffer[ a.clone() ] );
diff --git a/src/reader.rs b/src/reader.rs
index 4f907eb..7eae28f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -61,14 +61,30 @@ pub trait Reader< 'a, C: Context >: Sized {
 
     #[inline(always)]
     unsafe fn read_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
-        unsafe {
-            self.read_bytes( core::slice::from_raw_parts_mut( output, length ) )
+        // Anyone can implement `read_bytes`, so it must never see any uninitialized memory.
+        // We go chunk by chunk so that a bogus length won't make us touch all of the memory.
+        const CHUNK_SIZE: usize = 64 * 1024;
+
+        let mut offset = 0;
+        loop {
+            let chunk_size = core::cmp::min( length - offset, CHUNK_SIZE );
+            unsafe {
+                let chunk = output.add( offset );
+                core::ptr::write_bytes( chunk, 0, chunk_size );
+                self.read_bytes( core::slice::from_raw_parts_mut( chunk, chunk_size ) )?;
+            }
+
+            offset += chunk_size;
+            if offset == length {
+                return Ok(());
+            }
         }
     }
 
     #[inline(always)]
     unsafe fn peek_bytes_into_ptr( &mut self, output: *mut u8, length: usize ) -> Result< (), C::Error > {
         unsafe {
+            core::ptr::write_bytes( output, 0, length );
             self.peek_bytes( core::slice::from_raw_parts_mut( output, length ) )
         }
     }
-- 
2.43.0


From 092a7f090025742618c3913699b0e5c5da47ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 24/27] fix: read files which cannot be memory mapped as
 streams

read_from_file failed for regular files which mmap refuses (files bigger
than the address space allows, files of some virtual file systems), even
though reading them from a stream works, and does on every other platform.
---
 src/readable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readable.rs b/src/readable.rs
index 68345cb..38d9012 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -666,7 +666,11 @@ pub trait Readable< 'a, C: Context >: Sized {
                 return Self::read_from_stream_buffered_with_ctx( context, stream );
             }
 
-            let mut mmap = Mmap::open( &stream )?;
+            // Not every file can be memory mapped (for example when it is bigger than the available address space).
+            let mut mmap = match Mmap::open( &stream ) {
+                Ok( mmap ) => mmap,
+                Err( _ ) => return Self::read_from_stream_buffered_with_ctx( context, stream )
+            };
             unsafe {
                 mmap.madvise( MADV_SEQUENTIAL )?;
                 mmap.madvise( MADV_WILLNEED )?;
-- 
2.43.0


From c197e797b7fb242b1ab593caa4766374d0747a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 25/27] fix: report directories which cannot be memory mapped
 even if nothing is read from them

---
 src/readable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/readable.rs b/src/readable.rs
index 38d9012..2ed2806 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -669,7 +669,8 @@ pub trait Readable< 'a, C: Context >: Sized {
             // Not every file can be memory mapped (for example when it is bigger than the available address space).
             let mut mmap = match Mmap::open( &stream ) {
                 Ok( mmap ) => mmap,
-                Err( _ ) => return Self::read_from_stream_buffered_with_ctx( context, stream )
+                Err( _ ) if metadata.is_file() => return Self::read_from_stream_buffered_with_ctx( context, stream ),
+                Err( error ) => return Err( error.into() )
             };
             unsafe {
                 mmap.madvise( MADV_SEQUENTIAL )?;
-- 
2.43.0


From d584363a9a7fc0a71c02d8812d8cac91c61b7e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 26/27] fix: allow deriving for types whose lifetime parameters
 have bounds

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index b5fcba3..6b10400 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -294,7 +294,7 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Tr
     };
 
     let ty_params = {
-        let lifetime_params = ast.generics.lifetimes().map( |alpha| quote! { #alpha } );
+        let lifetime_params = ast.generics.lifetimes().map( |alpha| { let lifetime = &alpha.lifetime; quote! { #lifetime } });
         let type_params = ast.generics.type_params().map( |ty| { let ident = &ty.ident; quote! { #ident } } );
         let params = lifetime_params.chain( type_params ).collect_vec();
         if params.is_empty() {
@@ -330,6 +330,7 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Tr
 
         if trait_variant == Trait::Readable {
             for lifetime in ast.generics.lifetimes() {
+                let lifetime = &lifetime.lifetime;
                 predicates.push( quote! { 'a_: #lifetime } );
                 predicates.push( quote! { #lifetime: 'a_ } );
             }
-- 
2.43.0


From 2158ef07fa7833836934c361b435c3d6944faf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:02 +0000
Subject: [PATCH 27/27] fix: do not require the types of skipped fields to be
 readable

---
 speedy-derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6b10400..307cfc2 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1700,8 +1700,10 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, borrowed_types: &mut Vec<
         let raw_ty = field.raw_ty;
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
-        types.extend( field.bound_types() );
-        borrowed_types.extend( field.borrowed_element_type().cloned() );
+        if !field.skip {
+            types.extend( field.bound_types() );
+            borrowed_types.extend( field.borrowed_element_type().cloned() );
+        }
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
-- 
2.43.0

