From a08371a39589f9bca415ed45726aa056032ea168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 01/25] fix: refuse infinite region and size percentages

---
 src/iiif/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ce16b44..41409e1 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -58,7 +58,7 @@ trait SpatialSelector: Copy + Default + FromStr + ToString {
 impl SpatialSelector for f32 {
     fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
-        if value > 0.0 {
+        if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
             Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
@@ -142,7 +142,7 @@ fn parse_scale_percent(s: &str, upscale: bool) -> Result<Size, ParseError> {
 
     // Image API 3.0, s 4: Size ... parameters in percentages ... must be positive
     // Image API 3.0, s 4.2: n must not be greater than 100 [unless explicitly upscaling].
-    if scale > 0.0 && (scale <= 100.0 || upscale) {
+    if scale > 0.0 && scale.is_finite() && (scale <= 100.0 || upscale) {
         Ok(Size { upscale, scale: Scale::Percentage(scale) })
     } else {
         Err(ParseError::SizePercentageOutOfBounds(s.into()))
-- 
2.43.0


From cdab0474eacd4cb07bde5e0d79e4f7547a29e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 02/25] fix: decode image request paths alike in debug and
 release builds

The first segment was only consumed inside a debug_assert, so release
builds took the empty segment for the identifier. Trailing segments were
ignored.
---
 src/http.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 70d55f7..1de5c98 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,9 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    if segments.next() != Some("") {
+        return Err(ImageRequestError::UriUnexpectedElement("before the leading slash"));
+    }
 
     let identifier = segments
         .next()
@@ -88,6 +90,10 @@ fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
         .split_once('.')
         .ok_or(ImageRequestError::UriMissingElement("format"))?;
 
+    if segments.next().is_some() {
+        return Err(ImageRequestError::UriUnexpectedElement("after the format"));
+    }
+
     let quality = quality
         .parse::<Quality>()
         .map_err(ImageRequestError::ParseError)?;
@@ -104,6 +110,9 @@ pub enum ImageRequestError {
     /// If the URI did not contain an expected element.
     UriMissingElement(&'static str),
 
+    /// If the URI contained an element that does not belong to an image request.
+    UriUnexpectedElement(&'static str),
+
     /// If the URI contained a text element that was not in UTF-8 (which is an RFC6570 violation).
     UriNotUtf8(&'static str),
 
@@ -119,6 +128,9 @@ impl Display for ImageRequestError {
             ImageRequestError::UriMissingElement(element) => {
                 write!(f, "Request path missing {element}.")
             }
+            ImageRequestError::UriUnexpectedElement(position) => {
+                write!(f, "Request path has an unexpected element {position}.")
+            }
             ImageRequestError::ParseError(error) => Display::fmt(error, f),
             ImageRequestError::UriNotUtf8(element) => {
                 write!(f, "Request path {element} was not in UTF-8.")
-- 
2.43.0


From 1370b25031173ff5737394a0bcf51162d68128c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 03/25] fix: never resolve an identifier outside the image
 directory

---
 src/resolve.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..d47c3c8 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,6 +16,12 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        // Only plain names may follow the image directory: no '..', no absolute path, no prefix.
+        let is_plain = |component| matches!(component, Component::Normal(_));
+        if ident.is_empty() || !Path::new(ident).components().all(is_plain) {
+            return Err(io::Error::from(io::ErrorKind::InvalidInput).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From a315e52b1cbd4dfe32f7ab5db6ed46e29d5d4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 04/25] fix: answer image information requests instead of
 panicking

---
 src/http.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 1de5c98..c8df722 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -149,7 +149,10 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("not implemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From c9f6ad8a6d1615b6941c8e6cd92e7d060337615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 05/25] fix: report socket read errors to hyper instead of end
 of stream

---
 src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..290f13d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -70,12 +70,9 @@ mod hyper_compat {
                     buffer.as_mut_ptr().write_bytes(0, buffer.len());
                     slice::from_raw_parts_mut(buffer.as_mut_ptr() as *mut u8, buffer.len())
                 };
-                Pin::new(&mut self.0).poll_read(cx, read_slice).map(|n| {
-                    if let Ok(n) = n {
-                        buf.advance(n);
-                    }
-                    Ok(())
-                })
+                Pin::new(&mut self.0)
+                    .poll_read(cx, read_slice)
+                    .map_ok(|n| buf.advance(n))
             }
         }
     }
-- 
2.43.0


From f6383475d4a5de5c07e683bce52569ecb5622dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 06/25] fix: keep accepting connections after one of them fails

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 290f13d..dc429a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -116,11 +116,9 @@ mod hyper_compat {
         let conn_control = Rc::new(Semaphore::new(max_connections as _));
         loop {
             match listener.accept().await {
-                Err(x) => {
-                    return Err(x.into());
-                }
+                // A connection that fails before it is accepted must not stop the server.
+                Err(_) => continue,
                 Ok(stream) => {
-                    stream.local_addr()?;
                     let io = HyperStream(stream);
 
                     glommio::spawn_local(enclose! { (service, conn_control) async move {
-- 
2.43.0


From 5d80ca9235d9d4ff0330f64cecbf8c57a940473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 07/25] fix: hand out file streams as streams, and null when
 the file cannot be opened

---
 openjp2-rs/src/openjpeg.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..b30d1f0 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -667,11 +667,13 @@ pub unsafe fn opj_stream_create_file_stream(
         return std::ptr::null_mut::<opj_stream_t>();
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
-        Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
-        }
+        Ok(name) => match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+            Ok(stream) => Box::into_raw(Box::new(stream)) as *mut opj_stream_t,
+            Err(err) => {
+                log::error!("Failed to open file {name}: {err}");
+                std::ptr::null_mut::<opj_stream_t>()
+            }
+        },
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
             std::ptr::null_mut::<opj_stream_t>()
-- 
2.43.0


From f0a2f1dc15792656c298e25392f03327d76a178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 08/25] fix: return failure for null pointers given to public
 functions

---
 openjp2-rs/src/image.rs    |  8 ++++++--
 openjp2-rs/src/openjpeg.rs | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..51f02f0 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -335,7 +335,9 @@ pub unsafe fn opj_image_create(
     mut cmptparms: *mut opj_image_cmptparm_t,
     mut clrspc: OPJ_COLOR_SPACE,
 ) -> *mut opj_image_t {
-    assert!(!cmptparms.is_null());
+    if cmptparms.is_null() {
+        return std::ptr::null_mut::<opj_image_t>();
+    }
     let mut image = opj_image::new();
     let cmptparms = unsafe { std::slice::from_raw_parts(cmptparms, numcmpts as usize) };
     image.color_space = clrspc;
@@ -458,7 +460,9 @@ pub unsafe fn opj_image_tile_create(
     mut cmptparms: *mut opj_image_cmptparm_t,
     mut clrspc: OPJ_COLOR_SPACE,
 ) -> *mut opj_image_t {
-    assert!(!cmptparms.is_null());
+    if cmptparms.is_null() {
+        return std::ptr::null_mut::<opj_image_t>();
+    }
     let mut image = opj_image::new();
     let cmptparms = unsafe { std::slice::from_raw_parts(cmptparms, numcmpts as usize) };
     image.color_space = clrspc;
diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index b30d1f0..c0240f8 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -172,7 +172,13 @@ pub unsafe fn opj_set_decoded_components(
         return 0i32;
     }
     let l_codec = &mut *(p_codec as *mut opj_codec_private_t);
-    let components = unsafe { core::slice::from_raw_parts(comps_indices, numcomps as usize) };
+    let components = if numcomps == 0 {
+        &[][..]
+    } else if comps_indices.is_null() {
+        return 0i32;
+    } else {
+        unsafe { core::slice::from_raw_parts(comps_indices, numcomps as usize) }
+    };
     l_codec.set_decoded_components(components, apply_color_transforms)
 }
 
@@ -443,6 +449,9 @@ pub unsafe fn opj_set_MCT(
     mut p_dc_shift: *mut OPJ_INT32,
     mut nb_comps: OPJ_UINT32,
 ) -> OPJ_BOOL {
+    if parameters.is_null() | pEncodingMatrix.is_null() | p_dc_shift.is_null() {
+        return 0i32;
+    }
     let mut l_matrix_size = nb_comps * nb_comps;
     let mut l_dc_shift_size = nb_comps;
     let encoding_matrix =
@@ -486,7 +495,7 @@ pub unsafe fn opj_dump_codec(
     mut info_flag: OPJ_INT32,
     mut output_stream: *mut FILE,
 ) {
-    if p_codec.is_null() {
+    if p_codec.is_null() | output_stream.is_null() {
         return;
     }
     let l_codec = &mut *(p_codec as *mut opj_codec_private_t);
@@ -504,7 +513,7 @@ pub unsafe fn opj_get_cstr_info(mut p_codec: *mut opj_codec_t) -> *mut opj_codes
 
 #[no_mangle]
 pub unsafe fn opj_destroy_cstr_info(mut cstr_info: *mut *mut opj_codestream_info_v2_t) {
-    if !cstr_info.is_null() {
+    if !cstr_info.is_null() && !(*cstr_info).is_null() {
         // TODO: use drop.
         if !(**cstr_info).m_default_tile_info.tccp_info.is_null() {
             opj_free((**cstr_info).m_default_tile_info.tccp_info as *mut core::ffi::c_void);
@@ -528,7 +537,7 @@ pub unsafe fn opj_get_cstr_index(mut p_codec: *mut opj_codec_t) -> *mut opj_code
 
 #[no_mangle]
 pub unsafe fn opj_destroy_cstr_index(mut p_cstr_index: *mut *mut opj_codestream_index_t) {
-    if !(*p_cstr_index).is_null() {
+    if !p_cstr_index.is_null() && !(*p_cstr_index).is_null() {
         // TODO: use drop.
         j2k_destroy_cstr_index(*p_cstr_index);
         *p_cstr_index = std::ptr::null_mut::<opj_codestream_index_t>()
-- 
2.43.0


From 2651a8b5ad76c7b751b7ceb6f84a9c24dc710246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 09/25] fix: setting extra encoder options on a decoder or no
 codec fails

---
 openjp2-rs/src/openjpeg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index c0240f8..fde4d0f 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -363,13 +363,13 @@ pub unsafe fn opj_encoder_set_extra_options(
     mut p_codec: *mut opj_codec_t,
     mut options: *const *const core::ffi::c_char,
 ) -> OPJ_BOOL {
-    if options.is_null() {
-        return 1;
-    }
     if p_codec.is_null() {
         return 0;
     }
     let l_codec = &mut *(p_codec as *mut opj_codec_private_t);
+    if options.is_null() {
+        return l_codec.encoder_set_extra_options(&[]) as _;
+    }
     let mut p_option_iter = options;
     let mut options = Vec::new();
     while !(*p_option_iter).is_null() {
-- 
2.43.0


From 076bc48e07cd29ad0588402261257240139fd307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 10/25] fix: use the standard code of the UUID box ('uuid',
 0x75756964)

---
 openjp2-rs/src/consts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/consts.rs b/openjp2-rs/src/consts.rs
index cc87c62..3ca38f1 100644
--- a/openjp2-rs/src/consts.rs
+++ b/openjp2-rs/src/consts.rs
@@ -278,7 +278,7 @@ impl From<u32> for Jp2BoxType {
             0x72657320 => Jp2BoxType::RES,
             0x6A703269 => Jp2BoxType::JP2I,
             0x786D6C20 => Jp2BoxType::XML,
-            0x75756994 => Jp2BoxType::UUID,
+            0x75756964 => Jp2BoxType::UUID,
             0x75696E66 => Jp2BoxType::UINF,
             _ => Jp2BoxType::Unknown(value),
         }
@@ -328,7 +328,7 @@ impl Jp2BoxType {
             Jp2BoxType::RES => Some(0x72657320),
             Jp2BoxType::JP2I => Some(0x6A703269),
             Jp2BoxType::XML => Some(0x786D6C20),
-            Jp2BoxType::UUID => Some(0x75756994),
+            Jp2BoxType::UUID => Some(0x75756964),
             Jp2BoxType::UINF => Some(0x75696E66),
             Jp2BoxType::Unknown(value) => Some(*value),
         }
-- 
2.43.0


From 0485ae102b719dd49b1679fde07535d53fc36f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 11/25] fix: check the size of a QCD/QCC segment before reading
 its 16-bit step sizes

---
 openjp2-rs/src/j2k.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..f77d434 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -10801,6 +10801,9 @@ fn opj_j2k_read_SQcd_SQcc(
             }
             *p_header_size = (*p_header_size).wrapping_sub(l_num_band)
         } else {
+            if *p_header_size < 2 * l_num_band {
+                return 0i32;
+            }
             l_band_no = 0 as OPJ_UINT32;
             while l_band_no < l_num_band {
                 opj_read_bytes(l_current_ptr, &mut l_tmp, 2 as OPJ_UINT32);
@@ -10811,9 +10814,6 @@ fn opj_j2k_read_SQcd_SQcc(
                 }
                 l_band_no += 1;
             }
-            if *p_header_size < 2 * l_num_band {
-                return 0i32;
-            }
             *p_header_size = (*p_header_size).wrapping_sub((2u32).wrapping_mul(l_num_band))
         }
         // Add Antonin : if scalar_derived -> compute other stepsizes
-- 
2.43.0


From 429d40fb19da7af9124ae2aeeb5ecc9540de0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 12/25] fix: size the palette by its entries and columns
 without u8 overflow

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..1c46edf 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -654,7 +654,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_entries as usize * nr_channels as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
-- 
2.43.0


From 81395d029d8bf68ac4efe7737f79181447e9a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 13/25] fix: keep the HT cleanup-pass warning flag per thread
 instead of in an unsynchronised global

---
 openjp2-rs/src/ht_dec.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/openjp2-rs/src/ht_dec.rs b/openjp2-rs/src/ht_dec.rs
index cded279..d6b7eca 100644
--- a/openjp2-rs/src/ht_dec.rs
+++ b/openjp2-rs/src/ht_dec.rs
@@ -130,7 +130,9 @@ pub type frwd_struct_t = frwd_struct;
 //* ***********************************************************************/
 // * @brief Displays the error message for disabling the decoding of SPP and
 // MRP passes
-static mut only_cleanup_pass_is_decoded: OPJ_BOOL = 0i32;
+thread_local! {
+  static ONLY_CLEANUP_PASS_IS_DECODED: core::cell::Cell<bool> = const { core::cell::Cell::new(false) }
+}
 //* ***********************************************************************/
 // * @brief Generates population count (i.e., the number of set bits)
 //
@@ -1408,17 +1410,10 @@ pub(crate) unsafe fn opj_t1_ht_decode_cblk(
     } else if zero_bplanes == (*cblk).Mb && num_passes > 1u32 {
         // When the number of zero bitplanes is equal to the number of bitplanes,
         // only the cleanup pass makes sense
-        if only_cleanup_pass_is_decoded == 0i32 {
-            // We have a second check to prevent the possibility of an overrun condition,
-            // in the very unlikely event of a second thread discovering that
-            // only_cleanup_pass_is_decoded is false before the first thread changing
-            // the condition.
-            if only_cleanup_pass_is_decoded == 0i32 {
-                only_cleanup_pass_is_decoded = 1i32;
-                event_msg!(p_manager, EVT_WARNING,
-                                "Malformed HT codeblock. When the number of zero planes bitplanes is equal to the number of bitplanes, only the cleanup pass makes sense, but we have %d passes in this codeblock. Therefore, only the cleanup pass will be decoded. This message will not be displayed again.\n",
-                                num_passes);
-            }
+        if !ONLY_CLEANUP_PASS_IS_DECODED.with(|shown| shown.replace(true)) {
+            event_msg!(p_manager, EVT_WARNING,
+                            "Malformed HT codeblock. When the number of zero planes bitplanes is equal to the number of bitplanes, only the cleanup pass makes sense, but we have %d passes in this codeblock. Therefore, only the cleanup pass will be decoded. This message will not be displayed again.\n",
+                            num_passes);
         }
         num_passes = 1 as OPJ_UINT32
     }
-- 
2.43.0


From ebd33485fcfcc8d4422ab11426a012f3826cbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 14/25] fix: report a failure to store the ICC profile instead
 of announcing a length without data

---
 openjp2-rs/src/jp2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 1c46edf..bd7102a 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1856,7 +1856,10 @@ pub(crate) unsafe fn opj_jp2_read_header(
         }
 
         if let Some(icc_profile) = &jp2.color.icc_profile {
-            image.copy_icc_profile(icc_profile);
+            if !image.copy_icc_profile(icc_profile) {
+                event_msg!(p_manager, EVT_ERROR, "Not enough memory for the ICC profile\n",);
+                return 0i32;
+            }
             image.icc_profile_len = jp2.color.icc_profile_len;
         }
     }
-- 
2.43.0


From 1d282e49632ec950299370b3782351e4c2656c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 15/25] fix: write each component's own coding style into its
 COC segment

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index f77d434..b71eff2 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1956,7 +1956,7 @@ fn opj_j2k_write_coc_in_memory(
         opj_j2k_write_SPCod_SPCoc(
             p_j2k,
             p_j2k.m_current_tile_number,
-            0 as OPJ_UINT32,
+            p_comp_no,
             l_current_data,
             &mut l_remaining_size,
             p_manager,
-- 
2.43.0


From b9ffbd3c658127fc354b6cb2440f42e212b23c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 16/25] fix: keep the bytes a source delivers before its end
 instead of dropping them

---
 openjp2-rs/src/stream.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..17854e0 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,24 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
+        let mut nb = 0;
+        while nb < buf.len() {
+            match self.m_inner.read(&mut buf[nb..]) {
+                Ok(0) => break,
+                Ok(n) => nb += n,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    if nb == 0 {
+                        return Err(err);
                     }
+                    // Deliver what was read, the next read reports the error.
+                    break;
                 }
             }
         }
+        self.m_byte_offset += nb as i64;
+        Ok(nb)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From b441053df2c9f1c701b5dafd5f3e2c9ae67c6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 17/25] fix: account for the bytes a skip callback really
 skipped

---
 openjp2-rs/src/stream.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 17854e0..34ad2f6 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -167,17 +167,24 @@ impl Seek for CustomStream {
                 }
             }
             SeekFrom::Current(offset) => {
-                let res = if let Some(skip) = &self.m_skip_fn {
-                    unsafe { skip(offset, self.m_user_data) }
-                } else {
+                let Some(skip) = &self.m_skip_fn else {
                     return Err(IoError::other("Custom stream doesn't have a skip function"));
                 };
-                if res != -1 {
-                    self.m_byte_offset += offset;
-                    Ok(self.m_byte_offset as u64)
-                } else {
-                    Err(IoError::other("skip failed"))
+                // The callback may skip fewer bytes than asked.
+                let mut left = offset;
+                while left != 0 {
+                    let res = unsafe { skip(left, self.m_user_data) };
+                    if res == -1
+                        || res == 0
+                        || (res < 0) != (left < 0)
+                        || res.unsigned_abs() > left.unsigned_abs()
+                    {
+                        return Err(IoError::other("skip failed"));
+                    }
+                    self.m_byte_offset += res;
+                    left -= res;
                 }
+                Ok(self.m_byte_offset as u64)
             }
             SeekFrom::End(_offset) => Err(IoError::other("Unsupported seek from end")),
         }
-- 
2.43.0


From fb2c85554c75d93e5e7f67584fa58c6d5e3adbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 18/25] fix: a stream without known length has no bytes left to
 report instead of stopping the program

---
 openjp2-rs/src/stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 34ad2f6..68bf0b1 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -396,10 +396,10 @@ impl Stream {
 
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
-        assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
         let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
+            (self.m_stream_length as OPJ_OFF_T)
+                .saturating_sub(self.m_byte_offset)
+                .max(0)
         } else {
             0i64
         };
-- 
2.43.0


From c6dc3e020e9cdeff0427b4dfdf7fab119f8e667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 19/25] fix: the RPCL progression order was missing from the
 encoder's order table

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b71eff2..3ac5b24 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -168,6 +168,7 @@ pub(crate) enum ProgressionOrder {
     PCRL,
     RLCP,
     LRCP,
+    RPCL,
 }
 
 impl ProgressionOrder {
@@ -177,6 +178,7 @@ impl ProgressionOrder {
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
             OPJ_LRCP => Self::LRCP,
+            OPJ_RPCL => Self::RPCL,
             _ => Self::Unknown,
         }
     }
@@ -188,6 +190,7 @@ impl ProgressionOrder {
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::Unknown => &[],
         }
     }
@@ -198,6 +201,7 @@ impl ProgressionOrder {
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
+            Self::RPCL => "RPCL",
             Self::Unknown => "",
         }
     }
-- 
2.43.0


From 4eec63601e086c28fc068ce57b816af37f9106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 20/25] fix: the tile-part division level was always the
 outermost one

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 3ac5b24..c80cdbd 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -896,6 +896,7 @@ fn opj_j2k_get_num_tp(
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
                     break;
                 }
+                i += 1;
             }
         } else {
             tpnum = 1 as OPJ_UINT32
-- 
2.43.0


From 9ea28cb060fd197af32b5e3c8781fb40118eb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 21/25] fix: position-first orders shifted 32-bit words by 32
 or more, stopping a debug build or dropping packets

---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..6d09556 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -803,8 +803,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << levelno) >> levelno != (*comp).dx as u64
+                        || (((*comp).dy as u64) << levelno) >> levelno != (*comp).dy as u64
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -829,8 +829,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << rpx) >> rpx != (*comp).dx as u64
+                        || (((*comp).dy as u64) << rpy) >> rpy != (*comp).dy as u64
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -1082,8 +1082,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << levelno) >> levelno != (*comp).dx as u64
+                        || (((*comp).dy as u64) << levelno) >> levelno != (*comp).dy as u64
                     {
                         current_block = 3123434771885419771;
                         continue;
@@ -1108,8 +1108,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if (((*comp).dx as u64) << rpx) >> rpx != (*comp).dx as u64
+                        || (((*comp).dy as u64) << rpy) >> rpy != (*comp).dy as u64
                     {
                         current_block = 3123434771885419771;
                         continue;
-- 
2.43.0


From 1e32f0da8f906fbf8d83ca63ca9ecafbfee16352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 22/25] fix: copy each tile's own progression order changes
 when setting up the encoder

---
 openjp2-rs/src/j2k.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c80cdbd..f3f21d4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7368,20 +7368,20 @@ pub(crate) fn opj_j2k_setup_encoder(
                         let mut tcp_poc: *mut opj_poc_t =
                             &mut *(*tcp).pocs.as_mut_ptr().offset(numpocs_tile as isize)
                                 as *mut opj_poc_t;
-                        if parameters.POC[numpocs_tile as usize].compno0 >= image.numcomps {
+                        if parameters.POC[i as usize].compno0 >= image.numcomps {
                             event_msg!(p_manager, EVT_ERROR, "Invalid compno0 for POC %d\n", i,);
                             return 0i32;
                         }
-                        (*tcp_poc).resno0 = parameters.POC[numpocs_tile as usize].resno0;
-                        (*tcp_poc).compno0 = parameters.POC[numpocs_tile as usize].compno0;
-                        (*tcp_poc).layno1 = parameters.POC[numpocs_tile as usize].layno1;
-                        (*tcp_poc).resno1 = parameters.POC[numpocs_tile as usize].resno1;
+                        (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
+                        (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
+                        (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
+                        (*tcp_poc).resno1 = parameters.POC[i as usize].resno1;
                         (*tcp_poc).compno1 = opj_uint_min(
-                            parameters.POC[numpocs_tile as usize].compno1,
+                            parameters.POC[i as usize].compno1,
                             image.numcomps,
                         );
-                        (*tcp_poc).prg1 = parameters.POC[numpocs_tile as usize].prg1;
-                        (*tcp_poc).tile = parameters.POC[numpocs_tile as usize].tile;
+                        (*tcp_poc).prg1 = parameters.POC[i as usize].prg1;
+                        (*tcp_poc).tile = parameters.POC[i as usize].tile;
                         numpocs_tile += 1;
                     }
                     i += 1;
-- 
2.43.0


From aa59b88f3ed2cd24a4a2c3d2ee714a2a4e2e09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 23/25] fix: require the definition of channel 0 in a channel
 definition box

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index bd7102a..d07903d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -404,7 +404,7 @@ fn opj_jp2_check_color(
         // issue 397
         // ISO 15444-1 states that if cdef is present, it shall contain a complete list of channel
         // definitions.
-        for chan in 1..nr_channels {
+        for chan in 0..nr_channels {
             let has = cdef.info.iter().any(|&x| x.cn as u32 == chan);
             if !has {
                 event_msg!(p_manager, EVT_ERROR, "Incomplete channel definitions.\n",);
-- 
2.43.0


From a6df8d2309f5af8a2e77fb5d97416069402e19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 24/25] fix: give each palette channel its own samples instead
 of the index component's freed buffer

---
 openjp2-rs/src/jp2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index d07903d..ee970ef 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -587,6 +587,16 @@ fn opj_jp2_apply_pclr(
 
         // Palette mapping:
         *new_comp = *old_comp;
+        // The samples stay with the old component, the new one gets its own.
+        new_comp.data = std::ptr::null_mut();
+        if !new_comp.alloc_data() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Memory allocation failure in opj_jp2_apply_pclr().\n",
+            );
+            return 0i32;
+        }
         new_comp.prec = channel.size as OPJ_UINT32;
         new_comp.sgnd = channel.sign as OPJ_UINT32;
 
-- 
2.43.0


From d5326a035ef820721016fba351783285b7a9a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 25/25] fix: cloning an image copies its samples instead of
 sharing the buffers

---
 openjp2-rs/src/image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 51f02f0..9d64bcd 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -172,6 +172,16 @@ impl Clone for opj_image {
             if let Some(dest) = image.comps_mut() {
                 for (dest, src) in dest.iter_mut().zip(comps) {
                     *dest = *src;
+                    // The clone owns a copy of the samples.
+                    dest.data = std::ptr::null_mut();
+                    if let Some(src) = src.data() {
+                        if !dest.alloc_data() {
+                            return image;
+                        }
+                        if let Some(dest) = dest.data_mut() {
+                            dest.copy_from_slice(src);
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0

