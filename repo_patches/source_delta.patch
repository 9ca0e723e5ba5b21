From b3877308fb9c1190375658a1e9fc7b27139434c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 01/41] fix: keep PFM header state when seeking by 0 frames

resdet_seek_frame with an offset of 0 dropped the record that the first
frame's header was already consumed, so the following read parsed pixel data
as a header and failed.
---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From efba7db0dc3c0155ba4d23d0c8f5defb8469cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 02/41] fix: seek past the actual size of each PFM frame

The size of the first frame's format was used for every skipped frame, so
seeking failed in sequences mixing Pf and PF frames.
---
 lib/image/pfm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..4e85972 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,11 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	size_t planesize = width*height*sizeof(float);
 
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = planesize <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(planesize))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,7 +185,10 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
-		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
+		// the format may vary by frame
+		for(int planes = ctx->format == 'F' ? 3 : 1; planes > 0 && !*error; planes--)
+			*error = resdet_fskip(ctx->f,planesize,buf);
+		if(*error) {
 			ret = false;
 			break;
 		}
-- 
2.43.0


From 2b175ace38902388d36a0d401e830b1d82975120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 03/41] fix: reject PGM files without the P5 magic

fscanf returns 0 rather than EOF when a literal does not match, so other
netpbm formats (P2, P6, ...) were read as if their data were binary PGM.
---
 lib/image/pgm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..7323bec 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -51,7 +51,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	}
 
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fgetc(ctx->f) != 'P' ||
+	   fgetc(ctx->f) != '5' ||
+	   fscanf(ctx->f," ") < 0 ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From e8767c4a459f14c37bbd2c3b4b988749f7acc081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 04/41] fix: reject PGM files with a maxval out of range

A maxval of 0 produced non-finite pixels, and values of 65536 and up wrapped
into the accepted range.
---
 lib/image/pgm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 7323bec..0997459 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -5,13 +5,12 @@
 
 #include "image.h"
 
-#include <inttypes.h>
 #include <ctype.h>
 
 struct pgm_context {
 	FILE* f;
 	bool eof;
-	uint16_t depth;
+	size_t depth;
 };
 
 static void pgm_reader_close(void* reader_ctx) {
@@ -55,9 +54,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   fgetc(ctx->f) != '5' ||
 	   fscanf(ctx->f," ") < 0 ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   !ctx->depth || ctx->depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
-- 
2.43.0


From 6a5df0686330f65dafaa6ad54da0b7507f15c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 05/41] fix: account for the alpha plane of 444alpha Y4M
 streams

The 444 prefix match shadowed the 444alpha case, so every frame after the
first failed to read.
---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..b576512 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -90,10 +90,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 986b63d44e2eb3d1b7626ce2b69a9f4a127d8c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 06/41] fix: use the correct chroma plane size for 411 Y4M
 streams

4:1:1 subsamples horizontally by 4 only. This differs from the size of 4:2:0
planes when the height is odd or the width is not a multiple of 4.
---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index b576512..45b0e1c 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = ((*width+3)/4) * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
-- 
2.43.0


From ca7f76db7834f1320b80c38e684f7f8151711e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 07/41] fix: read interlaced PNG files

png_set_interlace_handling has no effect after png_read_update_info, so
reading any interlaced file failed.
---
 lib/image/libpng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..08788e1 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,8 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
+
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +125,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From 12751b151e7a8b28b24b4548a1dba9af70a8542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 08/41] fix: keep the libjpeg error manager alive while
 decoding

It pointed to an object local to the open function, so any libjpeg warning or
error while reading pixels (e.g. truncated data) called through a dangling
pointer.
---
 lib/image/libjpeg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..ed91c9e 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -18,6 +18,7 @@ struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,11 +48,12 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
 
 	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
 		*error = RDEINVAL;
-- 
2.43.0


From 7e217aae4a21ef9f831e4181717f2abbeefa3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 09/41] fix: free all buffers when KISS FFT plan creation fails

The dimensions were not set yet, so resdet_free_plan took the plan for a
square one and leaked the second dimension's buffers.
---
 lib/transform/kiss_fft.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..abc96b3 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -37,6 +37,10 @@ resdet_plan* resdet_create_plan(coeff* f, size_t width, size_t height, RDError*
 	         (p->cfg[1]   = kiss_fftr_alloc(height*2,false,NULL,NULL))
 	      ))
 	)) {
+		if(p) {
+			p->width = width;
+			p->height = height;
+		}
 		resdet_free_plan(p);
 		*error = RDENOMEM;
 		return NULL;
-- 
2.43.0


From 5f2b4af982458dcd52676208bb0dbcfb380ceefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 10/41] fix: reject FFmpeg frames whose size differs from the
 first

These were passed to a scaler configured for the initial dimensions, which
read past the end of smaller frames and returned garbage as image data.
---
 lib/image/ffmpeg.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..b0c1024 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -137,7 +137,16 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
-	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
+	if(averr)
+		goto averror;
+
+	// streams may change size at any point, but the scaler and caller's buffer are fixed
+	if(ctx->swsframe->width != width || ctx->swsframe->height != height) {
+		*error = RDEINVAL;
+		return false;
+	}
+
+	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
 	for(size_t y = 0; y < height; y++)
-- 
2.43.0


From cbc597b20e5305b407cb72068ba6951299e2b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 11/41] fix: follow pixel format changes in FFmpeg streams

Frames were converted as though they had the format of the first one, reading
out of bounds where their layouts differ.
---
 lib/image/ffmpeg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index b0c1024..e48d93d 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -15,6 +15,7 @@ struct ffmpeg_context {
 	AVFormatContext* fmt;
 	AVCodecContext* codec;
 	int stream_index;
+	int src_format;
 	struct SwsContext* sws;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
@@ -99,6 +100,8 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	if((averr = sws_init_context(ctx->sws,NULL,NULL)) < 0)
 		goto error;
 
+	ctx->src_format = ctx->codec->pix_fmt;
+
 	ctx->frame->width = ctx->codec->width;
 	ctx->frame->height = ctx->codec->height;
 	ctx->frame->format = little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE;
@@ -146,6 +149,15 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		return false;
 	}
 
+	if(ctx->swsframe->format != ctx->src_format) {
+		ctx->src_format = ctx->swsframe->format;
+		if(!(ctx->sws = sws_getCachedContext(ctx->sws,width,height,ctx->src_format,width,height,ctx->frame->format,SWS_BICUBIC,NULL,NULL,NULL))) {
+			ctx->src_format = AV_PIX_FMT_NONE;
+			*error = RDEINVAL;
+			return false;
+		}
+	}
+
 	if((averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
-- 
2.43.0


From 4f5d0f6e5b0c3938fb38018ceb34e6550d16704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 12/41] fix: allocate all images of a Python ImageBuffer

ImageBuffer.with_dimensions ignored nimages, so accessing any image past the
first was out of bounds.
---
 bindings/python/resdet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..04b9297 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,7 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
-- 
2.43.0


From 6a79108b03beb3629433c0af0fb219c980793454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 13/41] fix: raise on invalid parameters in the Python bindings

Errors from the parameter setters were ignored, so detection silently ran with
the default in place of an invalid value, or with a truncated one.
---
 bindings/python/resdet.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 04b9297..d9913cc 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -299,12 +299,26 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
     rdparameters = libresdet.resdet_alloc_default_parameters()
-    if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
-    if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
-    if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+    if not rdparameters:
+        raise _rderror_to_exception(Error.NOMEM)
+
+    try:
+        # ctypes silently truncates values that don't fit the argument type
+        if parameters.get("range", 1) < 0 or not 0 <= parameters.get("compression_filter", 0) <= 255:
+            raise _rderror_to_exception(Error.PARAM)
+
+        err = Error.OK
+        if "range" in parameters:
+            err = err or libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        if "threshold" in parameters:
+            err = err or libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        if "compression_filter" in parameters:
+            err = err or libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        if err:
+            raise _rderror_to_exception(err)
+    except:
+        libc.free(rdparameters)
+        raise
 
     return rdparameters
 
-- 
2.43.0


From 56830f1fc8b15446a925fa0599889226cad3a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 14/41] fix: use row-major layout and float data for NumPy
 images

Image dimensions were swapped relative to the layout of the pixel data, which
scrambled non-square arrays and the Pillow images made from them, and arrays of
other types or memory layouts had their raw bytes taken for floats.
---
 bindings/python/resdet.py       | 4 ++--
 bindings/python/resdet_numpy.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index d9913cc..c212a98 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -108,9 +108,9 @@ class ImageBuffer:
         return imagebuffer
 
     def shape(self):
-        shape = (self.width, self.height)
+        shape = (self.height, self.width)
         if self.nimages > 1:
-            shape += (self.nimages,)
+            shape = (self.nimages,) + shape
         return shape
 
     def __getitem__(self, index):
diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..4b8a6e8 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -25,9 +25,11 @@ class Image(resdet.Image):
 
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
     self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
-    nimages = image.shape[2] if len(image.shape) > 2 else 1
-    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
+    nimages = image.shape[0] if len(image.shape) > 2 else 1
+    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[-1], image.shape[-2], method, parameters)
-- 
2.43.0


From cf2ccdc54a04a3e756974347dacf4496c25e51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 15/41] fix: report imgread failures

imgread exited with success when reading failed, and passed a NULL filename to
fopen when not given an output.
---
 src/imgread.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index bfdfe63..1ccf213 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -8,12 +8,13 @@
 #include "resdet.h"
 
 int main(int argc, char** argv) {
-	if(argc < 2) {
+	if(argc < 3) {
 		fprintf(stderr,"Usage: %s input_image output.pfm\n", argv[0]);
 		return 1;
 	}
 
 	FILE* out = NULL;
+	int ret = 0;
 
 	float* image;
 	size_t width, height;
@@ -26,6 +27,7 @@ int main(int argc, char** argv) {
 	out = fopen(argv[2], "wb");
 	if(!out) {
 		perror("error opening output");
+		ret = 1;
 		goto end;
 	}
 
@@ -39,11 +41,15 @@ int main(int argc, char** argv) {
 	}
 
 end:
-	if(e)
+	if(e) {
 		fprintf(stderr,"%s\n",resdet_error_str(e));
+		ret = 1;
+	}
 
 	resdet_close_image(rdimage);
 	if(out)
 		fclose(out);
 	free(image);
+
+	return ret;
 }
-- 
2.43.0


From 7b7b594aa6cdb5a9d90f2270b1b66a102022e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 16/41] fix: compare profile's known and detected resolutions
 in index order

Detection results are sorted by confidence, so the merge in diffres
miscounted false positives and negatives.
---
 src/profile.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index 5898e8f..cf0c6b0 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -25,8 +25,19 @@ struct timeval diffts(struct timeval start, struct timeval end) {
 }
 
 
+static int cmpindex(const void* left, const void* right) {
+	size_t l = *(const size_t*)left, r = *(const size_t*)right;
+	return (l > r) - (l < r);
+}
+
+static int cmpres(const void* left, const void* right) {
+	return cmpindex(&((const RDResolution*)left)->index,&((const RDResolution*)right)->index);
+}
+
 void diffres(size_t* left, size_t leftlen, RDResolution* right, size_t rightlen, size_t* plus, size_t* minus) {
 	size_t l = 0, r = 0;
+	qsort(left,leftlen,sizeof(*left),cmpindex);
+	qsort(right,rightlen,sizeof(*right),cmpres);
 	while(l < leftlen && r < rightlen)
 		if(left[l] > right[r].index) {
 			(*plus)++;
-- 
2.43.0


From be5767ee2105071217fd28516e039afe62eecd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 17/41] fix: accept file paths in the Python resdetect function

The README documents resdetect(image_path) with string and PathLike paths, but only
image data was accepted.
---
 bindings/python/resdet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index c212a98..f719556 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -427,3 +427,8 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     libc.free(resh)
 
     return {"widths": widths, "heights": heights}
+
+@resdetect.register(str)
+@resdetect.register(os.PathLike)
+def _(filename: str | os.PathLike, type: Optional[str] = None, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    return resdetect_file(filename, type, method, parameters)
-- 
2.43.0


From 288f5bcc04fa2fe77639a45e3c2666ad0ba6d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 18/41] fix: report every invalid parameter in the JS bindings

An error from an earlier parameter was lost when a later one was valid, and the
parameters were leaked.
---
 bindings/emscripten/resdet.mts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 7f201a7..5b0a02c 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -181,15 +181,17 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(!params)
 		throw new OutOfMemoryError();
 
-	let err;
+	let err = 0;
 	if('range' in parameters)
-		err = resdet_parameters_set_range(params,parameters['range']);
+		err = err || resdet_parameters_set_range(params,parameters['range']);
 	if('threshold' in parameters)
-		err = resdet_parameters_set_threshold(params,parameters['threshold']);
+		err = err || resdet_parameters_set_threshold(params,parameters['threshold']);
 	if('compression_filter' in parameters)
-		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
-	if(err)
+		err = err || resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+	if(err) {
+		Module._free(params);
 		throw new RDError(err);
+	}
 
 	return params;
 }
-- 
2.43.0


From 52d6c7761099463a9fec1ad09f4af05d26eda46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 19/41] fix: report no images when reading an image in bulk
 fails

---
 lib/image.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..9f685b1 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -244,6 +244,7 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 	if(error) {
 		free(*images);
 		*images = NULL;
+		*nimages = 0;
 	}
 
 	resdet_close_image(image);
-- 
2.43.0


From 6732f0b7c9e50982930bdf4ad432f163b452ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 20/41] fix: do not deliver the last frame again after the end
 with MagickWand

---
 lib/image/magickwand.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..0f49f3e 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->eof = false;
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,10 +78,17 @@ error:
 	return NULL;
 }
 
+// MagickNextImage starts over with the last image when called again after reporting the end
+static bool next_image(struct magickwand_context* ctx) {
+	if(!ctx->eof)
+		ctx->eof = MagickNextImage(ctx->wand) == MagickFalse;
+	return !ctx->eof;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx))
 		return false;
 
 	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
@@ -89,7 +98,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From 9b97495caf2fef04caabec6d7bb056f6eef0c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 21/41] fix: reserve the generic butterfly's scratch space with
 the KISS FFT state

An allocation failure during a transform was ignored and its output was
used as if it were complete.
---
 lib/kissfft/kiss_fft.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/kissfft/kiss_fft.c b/lib/kissfft/kiss_fft.c
index 58c24a0..a599ed4 100644
--- a/lib/kissfft/kiss_fft.c
+++ b/lib/kissfft/kiss_fft.c
@@ -202,11 +202,15 @@ static void kf_bfly_generic(
     kiss_fft_cpx t;
     int Norig = st->nfft;
 
+#ifdef _OPENMP
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
     if (scratch == NULL){
         KISS_FFT_ERROR("Memory allocation failed.");
         return;
     }
+#else
+    kiss_fft_cpx * scratch = twiddles + Norig; /* allocated with the state, as failure can't be reported here */
+#endif
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -229,7 +233,9 @@ static void kf_bfly_generic(
             k += m;
         }
     }
+#ifdef _OPENMP
     KISS_FFT_TMP_FREE(scratch);
+#endif
 }
 
 static
@@ -339,8 +345,20 @@ kiss_fft_cfg kiss_fft_alloc(int nfft,int inverse_fft,void * mem,size_t * lenmem
     KISS_FFT_ALIGN_CHECK(mem)
 
     kiss_fft_cfg st=NULL;
-    size_t memneeded = KISS_FFT_ALIGN_SIZE_UP(sizeof(struct kiss_fft_state)
-        + sizeof(kiss_fft_cpx)*(nfft-1)); /* twiddle factors*/
+    int factors[2*MAXFACTORS], *f = factors, nscratch = 0;
+    size_t memneeded;
+
+    /* largest factor handled by the generic butterfly */
+    kf_factor(nfft,factors);
+    do {
+        if ((f[0] < 2 || f[0] > 5) && f[0] > nscratch)
+            nscratch = f[0];
+        f += 2;
+    } while (f[-1] > 1);
+
+    memneeded = KISS_FFT_ALIGN_SIZE_UP(sizeof(struct kiss_fft_state)
+        + sizeof(kiss_fft_cpx)*(nfft-1) /* twiddle factors*/
+        + sizeof(kiss_fft_cpx)*nscratch); /* scratch of the generic butterfly */
 
     if ( lenmem==NULL ) {
         st = ( kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
-- 
2.43.0


From 2aefc1a65203ae2277c6df47c4f17e508e472ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 22/41] fix: refuse an image whose header could not be read in
 full

A number in the header was cut off where a read failed once, and the rest
taken for what follows, giving an image of another size.
---
 lib/image/pfm.c | 4 ++--
 lib/image/pgm.c | 2 +-
 lib/image/y4m.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 4e85972..b216224 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -104,7 +104,7 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
-	   !isspace(fgetc(ctx->f))
+	   !isspace(fgetc(ctx->f)) || ferror(ctx->f)
 	) {
 		*error = RDEINVAL;
 		goto error;
@@ -138,7 +138,7 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 	    fscanf(ctx->f," ") == EOF ||
 		!skip_comments(ctx->f) ||
 	    fscanf(ctx->f,"%zu %zu %f",&next_width,&next_height,&next_endianness_scale) != 3 ||
-	    !isspace(fgetc(ctx->f)) ||
+	    !isspace(fgetc(ctx->f)) || ferror(ctx->f) ||
 	    next_width != width ||
 		next_height != height
 	) {
diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 0997459..0dbda99 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -55,7 +55,7 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   fscanf(ctx->f," ") < 0 ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %zu",width,height,&ctx->depth) != 3 ||
-	   !isspace(fgetc(ctx->f)) ||
+	   !isspace(fgetc(ctx->f)) || ferror(ctx->f) ||
 	   !ctx->depth || ctx->depth > 255
 	) {
 		*error = RDEINVAL;
diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 45b0e1c..5b8adca 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -70,7 +70,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		}
 
 
-	if(!(*width && *height))
+	if(!(*width && *height) || ferror(ctx->f))
 		goto invalid;
 	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
 		*error = RDETOOBIG;
-- 
2.43.0


From 03091964635edf98b944256e6ac5ce64b13e70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 23/41] fix: apply the pixel limit itself, not a quarter of it,
 to Y4M images

---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 5b8adca..1cf88cf 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -72,7 +72,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 
 	if(!(*width && *height) || ferror(ctx->f))
 		goto invalid;
-	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
+	if(resdet_dims_exceed_limit(*width,*height,1,float)) {
 		*error = RDETOOBIG;
 		goto error;
 	}
-- 
2.43.0


From 3730b129257e2a53d8f13cf1c6be46341f9c1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 24/41] fix: refuse image sequences only when they exceed the
 size limit, not when another frame would

---
 lib/image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 9f685b1..35751d3 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -227,8 +227,10 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 	while(resdet_read_image_frame(image,*images + *width * *height * *nimages,&error)) {
 		(*nimages)++;
 
+		// no room for another frame, so there may not be one
 		if(resdet_dims_exceed_limit(*width,*height,*nimages+1,float)) {
-			error = RDETOOBIG;
+			if(resdet_seek_frame(image,1,NULL,NULL,&error))
+				error = RDETOOBIG;
 			break;
 		}
 
-- 
2.43.0


From 146371427c1684b361bb8ccec84cd460edcf35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 25/41] fix: accept every kind of path in the Python bindings,
 not only those whose str() is the path in UTF-8

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index f719556..99edcdd 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -157,9 +157,9 @@ class Image:
         err = ctypes.c_int()
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
-            self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
         else:
-            self._rdimage = libresdet.resdet_open_image(str(filename).encode("utf-8"), type_arg, width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image(os.fsencode(filename), type_arg, width, height, buf, err)
         if not self._rdimage:
             raise _rderror_to_exception(err)
 
@@ -359,7 +359,7 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
     height = ctypes.c_size_t()
     nimages = ctypes.c_size_t()
     buf = ImageBuffer()
-    err = libresdet.resdet_read_image(str(filename).encode("utf-8"), type_arg, buf.data, nimages, width, height)
+    err = libresdet.resdet_read_image(os.fsencode(filename), type_arg, buf.data, nimages, width, height)
     if err:
         raise _rderror_to_exception(err)
     buf.width = width.value
@@ -414,7 +414,7 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+    err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
 
     libc.free(params_arg)
 
-- 
2.43.0


From ee08f03dab4b723e00d49d715fc8c8d978489366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 26/41] fix: use the current data of a Python ImageBuffer, not
 the data it was created with, which may have been freed

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 99edcdd..72caa19 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -97,7 +97,10 @@ class ImageBuffer:
 
     def __init__(self, buffer: Optional[c_float_ptr] = None) -> None:
         self.data = buffer if buffer else ctypes.POINTER(ctypes.c_float)()
-        self._as_parameter_ = self.data
+
+    @property
+    def _as_parameter_(self) -> c_float_ptr:
+        return self.data
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-- 
2.43.0


From b3b6fb103c13701843580952e9054a240bf914bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 27/41] fix: free the previous data of an ImageBuffer passed to
 Image in the Python bindings

---
 bindings/python/resdet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 72caa19..0e1d9c6 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -158,6 +158,8 @@ class Image:
         width = ctypes.c_size_t()
         height = ctypes.c_size_t()
         err = ctypes.c_int()
+        if buffer:
+            buffer.close()
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
             self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
-- 
2.43.0


From 5e977eed90d005a5d384cf2d7b70ae70f912caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 28/41] fix: refuse ranges too large for the library in the
 Python bindings instead of truncating them

---
 bindings/python/resdet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 0e1d9c6..dff80ff 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -309,7 +309,7 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
 
     try:
         # ctypes silently truncates values that don't fit the argument type
-        if parameters.get("range", 1) < 0 or not 0 <= parameters.get("compression_filter", 0) <= 255:
+        if not 0 <= parameters.get("range", 1) < 1 << 8*ctypes.sizeof(ctypes.c_size_t) or not 0 <= parameters.get("compression_filter", 0) <= 255:
             raise _rderror_to_exception(Error.PARAM)
 
         err = Error.OK
-- 
2.43.0


From c6087ef24bd33dd5e852ea6a99d24a75841a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 29/41] fix: refuse negative indices into a Python ImageBuffer,
 which read memory before it

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index dff80ff..3d837a3 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -122,16 +122,16 @@ class ImageBuffer:
                 raise Exception("Too many coordinates for image: {index}")
             if len(index) < 3:
                 index = (0,) + index
-            if index[0] >= self.nimages:
+            if not 0 <= index[0] < self.nimages:
                 raise IndexError(f"Frame index {index[0]} is out of range for {self.nimages} images")
-            if index[1] >= self.height:
+            if not 0 <= index[1] < self.height:
                 raise IndexError(f"y index {index[1]} is out of range for height {self.height}")
-            if index[2] >= self.width:
+            if not 0 <= index[2] < self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if not 0 <= index < self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From 960859c93515a3230760d470d8cf7b28171f1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 30/41] fix: free the parameters in the Python bindings when an
 argument of the call is refused

---
 bindings/python/resdet.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 3d837a3..7b5d0a4 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -213,8 +213,10 @@ class Analysis:
     def __init__(self, width: int, height: int, method: Optional[Method] = None, parameters: dict = {}) -> None:
         params_arg = _dict_to_rdparameters(parameters)
         err = ctypes.c_int()
-        self._rdanalysis = libresdet.resdet_create_analysis(method, width, height, params_arg, err)
-        libc.free(params_arg)
+        try:
+            self._rdanalysis = libresdet.resdet_create_analysis(method, width, height, params_arg, err)
+        finally:
+            libc.free(params_arg)
 
         if not self._rdanalysis:
             raise _rderror_to_exception(err)
@@ -381,9 +383,10 @@ def resdetect(image, nimages: int, width: int, height: int, method: Optional[Met
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect(image, nimages, width, height, resw, countw, resh, counth, method, params_arg)
-
-    libc.free(params_arg)
+    try:
+        err = libresdet.resdetect(image, nimages, width, height, resw, countw, resh, counth, method, params_arg)
+    finally:
+        libc.free(params_arg)
 
     if err:
         raise _rderror_to_exception(err)
@@ -419,9 +422,10 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
-
-    libc.free(params_arg)
+    try:
+        err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
+    finally:
+        libc.free(params_arg)
 
     if err:
         raise _rderror_to_exception(err)
-- 
2.43.0


From 531f43addcdafd086aff1b572be3eac054d56392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 31/41] fix: refuse Pillow images whose frames differ in size,
 which were read out of bounds

---
 bindings/python/resdet_PIL.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..4347a58 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,4 +1,5 @@
 import resdet_numpy
+from resdet import InvalidImageError
 from resdet_numpy import resdetect, Analysis, Method, Image
 
 import PIL.Image
@@ -26,12 +27,16 @@ def _(self, image: PIL.Image.Image) -> None:
 def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict = {}) -> dict:
     analysis = Analysis(image.width, image.height, method, parameters)
     frameno = prev_frame = image.tell()
+    size = image.size
     while True:
         try:
             image.seek(frameno)
             frameno += 1
         except EOFError:
             break;
+        if image.size != size:
+            image.seek(prev_frame)
+            raise InvalidImageError("Frames of different sizes")
         analysis.analyze_image(image)
 
     image.seek(prev_frame)
-- 
2.43.0


From 1035c0cdb5b3cb9258af34d454c4d60fe7c10fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 32/41] fix: sizes and parameters beyond 32 bits wrap in the
 JavaScript bindings

A width, height or range of 2^32+1 was taken as 1, and 2^32 as 0; likewise
a compression filter of 2^32+4 as 4.
---
 bindings/emscripten/resdet.mts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 5b0a02c..bb3e103 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -17,6 +17,11 @@ const resdet_destroy_analysis = Module.cwrap('resdet_destroy_analysis', undefine
 const libVersion = Module.cwrap('resdet_libversion', 'string', []);
 const defaultRange = Module.cwrap('resdet_default_range', 'number', []);
 
+// WebAssembly would wrap numbers out of the range of size_t to a different size
+function toSize(value: number) {
+	return Math.max(0,Math.min(value,0xFFFFFFFF));
+}
+
 class OutOfMemoryError extends Error {
 	constructor() {
 		super("Out of memory.");
@@ -100,7 +105,7 @@ class Analysis {
 		if(!errp)
 			throw new OutOfMemoryError();
 
-		this.rdanalysis = resdet_create_analysis(method?.rdmethod, width, height, params, errp);
+		this.rdanalysis = resdet_create_analysis(method?.rdmethod, toSize(width), toSize(height), params, errp);
 
 		Module._free(params);
 		const err = Module.getValue(errp,'i32');
@@ -183,11 +188,11 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 
 	let err = 0;
 	if('range' in parameters)
-		err = err || resdet_parameters_set_range(params,parameters['range']);
+		err = err || resdet_parameters_set_range(params,toSize(parameters['range']));
 	if('threshold' in parameters)
 		err = err || resdet_parameters_set_threshold(params,parameters['threshold']);
 	if('compression_filter' in parameters)
-		err = err || resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+		err = err || resdet_parameters_set_compression_filter(params,Math.min(parameters['compression_filter'],0xFF));
 	if(err) {
 		Module._free(params);
 		throw new RDError(err);
@@ -211,7 +216,7 @@ function resDetect(float32Array: Float32Array, nimages: number, width: number, h
 	if(!(countwp && counthp && reswp && reshp))
 		throw new OutOfMemoryError();
 
-	const err = resdetect(buf, nimages, width, height, reswp, countwp, reshp, counthp, method?.rdmethod, params);
+	const err = resdetect(buf, nimages, toSize(width), toSize(height), reswp, countwp, reshp, counthp, method?.rdmethod, params);
 	Module._free(params);
 	Module._free(buf);
 	if(err) {
-- 
2.43.0


From b20602b15a1ad25582cfd3581865f0eb2e5d635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 33/41] fix: memory leaks when an allocation fails in the
 JavaScript bindings

---
 bindings/emscripten/resdet.mts | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index bb3e103..8360f88 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -102,8 +102,10 @@ class Analysis {
 	constructor(width: number, height: number, method: Method | null = null, parameters: Partial<Parameters> = {}) {
 		const params = parametersFromObj(parameters)
 		const errp = Module._malloc(4);
-		if(!errp)
+		if(!errp) {
+			Module._free(params);
 			throw new OutOfMemoryError();
+		}
 
 		this.rdanalysis = resdet_create_analysis(method?.rdmethod, toSize(width), toSize(height), params, errp);
 
@@ -134,8 +136,13 @@ class Analysis {
 		const counthp = Module._malloc(4);
 		const reswp = Module._malloc(4);
 		const reshp = Module._malloc(4);
-		if(!(countwp && counthp && reswp && reshp))
+		if(!(countwp && counthp && reswp && reshp)) {
+			Module._free(reswp);
+			Module._free(reshp);
+			Module._free(countwp);
+			Module._free(counthp);
 			throw new OutOfMemoryError();
+		}
 
 		const err = resdet_analysis_results(this.rdanalysis,reswp,countwp,reshp,counthp);
 
@@ -205,16 +212,25 @@ function resDetect(float32Array: Float32Array, nimages: number, width: number, h
 	const params = parametersFromObj(parameters)
 
 	const buf = Module._malloc(float32Array.length*4);
-	if(!buf)
+	if(!buf) {
+		Module._free(params);
 		throw new OutOfMemoryError();
+	}
 	Module.HEAPF32.set(float32Array,buf/4);
 
 	const countwp = Module._malloc(4);
 	const counthp = Module._malloc(4);
 	const reswp = Module._malloc(4);
 	const reshp = Module._malloc(4);
-	if(!(countwp && counthp && reswp && reshp))
+	if(!(countwp && counthp && reswp && reshp)) {
+		Module._free(params);
+		Module._free(buf);
+		Module._free(reswp);
+		Module._free(reshp);
+		Module._free(countwp);
+		Module._free(counthp);
 		throw new OutOfMemoryError();
+	}
 
 	const err = resdetect(buf, nimages, toSize(width), toSize(height), reswp, countwp, reshp, counthp, method?.rdmethod, params);
 	Module._free(params);
-- 
2.43.0


From 086fb31865e053508d3f123ccbb7dc93c469cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 34/41] fix: Y4M parameter without a value swallows what
 follows it

---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 1cf88cf..4bd3647 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -64,7 +64,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			case ' ': break;
 			case EOF: goto invalid;
 			default:
-				if(fscanf(ctx->f,"%*s") < 0)
+				if(fscanf(ctx->f,"%*[^ \n]") < 0)
 					goto invalid;
 				break;
 		}
-- 
2.43.0


From 28beac1320bf025dc7ec35b4c0b42ab5b314d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 35/41] fix: profile cuts off the last digit of a dictionary
 without a final newline

---
 src/profile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index cf0c6b0..3347fa4 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -125,7 +125,8 @@ int main(int argc, char* argv[]) {
 	while(!ret && (len = getline(&line,&len2,dict)) > 0) {
 		if(*line == '\n')
 			continue;
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 		puts(line);
 		float* image;
 		size_t w, h, d;
@@ -147,7 +148,8 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 
 		readres(line,&knownw,&knownwct);
 		if(!knownwct) {
@@ -159,7 +161,8 @@ int main(int argc, char* argv[]) {
 			ret = 1;
 			goto read_end;
 		}
-		line[len-1] = '\0';
+		if(line[len-1] == '\n')
+			line[len-1] = '\0';
 
 		readres(line,&knownh,&knownhct);
 		if(!knownhct) {
-- 
2.43.0


From 8772b3eee2128eed68757ea98f408f6fe4636499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 36/41] fix: imgread ignores errors writing its output

---
 src/imgread.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/imgread.c b/src/imgread.c
index 1ccf213..35e3d11 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -47,8 +47,13 @@ end:
 	}
 
 	resdet_close_image(rdimage);
-	if(out)
-		fclose(out);
+	if(out) {
+		int failed = ferror(out);
+		if(fclose(out) || failed) {
+			fprintf(stderr,"error writing output\n");
+			ret = 1;
+		}
+	}
 	free(image);
 
 	return ret;
-- 
2.43.0


From f0f85bd816aeb2bce31fcf09e7aec04026d1f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 37/41] fix: report failed reads of FFmpeg input instead of
 ending the sequence

Demuxers commonly turn an I/O error into an end of file or an error of
their own, and every error of av_read_frame was taken for the end of the
file, so that a file that could not be read completely was analyzed in part
without notice.
---
 lib/image/ffmpeg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index e48d93d..ccf1654 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -124,8 +124,12 @@ static int read_frame(struct ffmpeg_context* ctx) {
 	while((averr = avcodec_receive_frame(ctx->codec, ctx->swsframe)) == AVERROR(EAGAIN)) {
 		while(!(averr = av_read_frame(ctx->fmt,ctx->packet)) && ctx->packet->stream_index != ctx->stream_index)
 			av_packet_unref(ctx->packet);
-		if(averr)
+		if(averr) {
+			// demuxers may report a failed read as the end of the file
+			if(ctx->fmt->pb && ctx->fmt->pb->error < 0)
+				return ctx->fmt->pb->error;
 			averr = avcodec_send_packet(ctx->codec, NULL);
+		}
 		else {
 			averr = avcodec_send_packet(ctx->codec, ctx->packet);
 			av_packet_unref(ctx->packet);
-- 
2.43.0


From 2798306c2120766f1e239bce0dee82b0ce984956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 38/41] fix: read PFM files in locales with other decimal
 separators

The scale in the header was read with %f, which expects the decimal
separator of the current locale, so that programs that set a locale such as
de_DE could not open any PFM file with a scale like -1.0.
---
 lib/image/pfm.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index b216224..9072224 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -85,6 +85,33 @@ static inline bool skip_comments(FILE* f) {
 	return c != EOF && ungetc(c,f) == c;
 }
 
+// %f and strtof would expect the decimal separator of the current locale
+static bool read_scale(FILE* f, float* scale) {
+	char str[256];
+	if(fscanf(f," %255[-+.0-9eE]",str) != 1)
+		return false;
+
+	const char* s = str;
+	*scale = *s == '-' ? -1 : 1; // only the sign matters
+	s += *s == '-' || *s == '+';
+
+	size_t digits = strspn(s,"0123456789");
+	s += digits;
+	if(*s == '.') {
+		size_t decimals = strspn(++s,"0123456789");
+		digits += decimals;
+		s += decimals;
+	}
+	if(*s == 'e' || *s == 'E') {
+		s++;
+		s += *s == '-' || *s == '+';
+		if(!strspn(s,"0123456789"))
+			return false;
+		s += strspn(s,"0123456789");
+	}
+	return digits && !*s;
+}
+
 static void* pfm_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
 	struct pfm_context* ctx = malloc(sizeof(*ctx));
 	if(!ctx) {
@@ -103,7 +130,8 @@ static void* pfm_reader_open(const char* filename, size_t* width, size_t* height
 	   !(ctx->format == 'f' || ctx->format == 'F') ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %f",width,height,&ctx->endianness_scale) != 3 ||
+	   fscanf(ctx->f,"%zu %zu",width,height) != 2 ||
+	   !read_scale(ctx->f,&ctx->endianness_scale) ||
 	   !isspace(fgetc(ctx->f)) || ferror(ctx->f)
 	) {
 		*error = RDEINVAL;
@@ -137,7 +165,8 @@ static bool read_header(struct pfm_context* ctx, size_t width, size_t height, RD
 	    !(next_format == 'f' || next_format == 'F') ||
 	    fscanf(ctx->f," ") == EOF ||
 		!skip_comments(ctx->f) ||
-	    fscanf(ctx->f,"%zu %zu %f",&next_width,&next_height,&next_endianness_scale) != 3 ||
+	    fscanf(ctx->f,"%zu %zu",&next_width,&next_height) != 2 ||
+	    !read_scale(ctx->f,&next_endianness_scale) ||
 	    !isspace(fgetc(ctx->f)) || ferror(ctx->f) ||
 	    next_width != width ||
 		next_height != height
-- 
2.43.0


From 727a6f497933cd37ecb9347f33f53e77c432e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 39/41] fix: compare reader names and extensions independently
 of the locale

In Turkish locales with a single byte encoding, tolower('I') is not 'i', and
readers such as "LIBPNG" were not found.
---
 lib/image.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index 35751d3..605150a 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -5,8 +5,6 @@
 
 #include "image.h"
 
-#include <ctype.h>
-
 #ifdef _WIN32
 #include <fcntl.h>
 #include <io.h>
@@ -23,9 +21,14 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 	return RDEOK;
 }
 
+// tolower depends on the locale, where 'I' may not become 'i'
+static int ascii_lower(int c) {
+	return c >= 'A' && c <= 'Z' ? c-'A'+'a' : c;
+}
+
 bool resdet_strieq(const char* left, const char* right) {
 	while(*left && *right)
-		if(tolower(*left++) != tolower(*right++))
+		if(ascii_lower(*left++) != ascii_lower(*right++))
 			return false;
 	return *left == *right;
 }
-- 
2.43.0


From cbee280b9bbf8ce663db59439b566f996400a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:30 +0000
Subject: [PATCH 40/41] fix: take back the width's measures of an image whose
 height can't be analyzed

---
 lib/analysis.c        | 18 ++++++++++++++++--
 lib/resdet_internal.h |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/analysis.c b/lib/analysis.c
index 7317ffc..0d09bda 100644
--- a/lib/analysis.c
+++ b/lib/analysis.c
@@ -48,7 +48,7 @@ RESDET_API RDAnalysis* resdet_create_analysis(RDMethod* method, size_t width, si
 	analysis->height = height;
 	analysis->params = params ? *params : default_params;
 	analysis->nimages = 0;
-	analysis->xresult = analysis->yresult = NULL;
+	analysis->xresult = analysis->yresult = analysis->xsaved = NULL;
 	analysis->p = NULL;
 	analysis->f = NULL;
 
@@ -81,6 +81,11 @@ RESDET_API RDAnalysis* resdet_create_analysis(RDMethod* method, size_t width, si
 		goto error;
 	if((e = setup_dimension(height,analysis->params.range,&analysis->yresult,analysis->ybound)) != RDEOK)
 		goto error;
+	if(analysis->xresult && analysis->yresult &&
+	  !(analysis->xsaved = malloc((analysis->xbound[1]-analysis->xbound[0])*sizeof(*analysis->xsaved)))) {
+		e = RDENOMEM;
+		goto error;
+	}
 
 	if(error)
 		*error = RDEOK;
@@ -102,6 +107,7 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 
 	RDError ret = RDEOK;
 	size_t width = analysis->width, height = analysis->height;
+	size_t xsize = analysis->xsaved ? (analysis->xbound[1]-analysis->xbound[0])*sizeof(*analysis->xsaved) : 0;
 
 	for(rdint_index i = 0; i < width*height; i++) {
 		if(!isfinite(image[i])) {
@@ -113,12 +119,19 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 
 	resdet_transform(analysis->p);
 
+	if(xsize)
+		memcpy(analysis->xsaved,analysis->xresult,xsize);
+
 	if(analysis->xresult &&
 	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,width,height,width,1,analysis->params.range,analysis->xresult,analysis->xbound,analysis->xbound+1)) != RDEOK)
 		goto end;
 	if(analysis->yresult &&
-	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK)
+	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK) {
+		// take back the measures of the width
+		if(xsize)
+			memcpy(analysis->xresult,analysis->xsaved,xsize);
 		goto end;
+	}
 
 	analysis->nimages++;
 
@@ -199,6 +212,7 @@ RESDET_API void resdet_destroy_analysis(RDAnalysis* analysis) {
 
 	free(analysis->xresult);
 	free(analysis->yresult);
+	free(analysis->xsaved);
 	resdet_free_plan(analysis->p);
 	resdet_free_coeffs(analysis->f);
 	free(analysis);
diff --git a/lib/resdet_internal.h b/lib/resdet_internal.h
index a7095ed..05673fb 100644
--- a/lib/resdet_internal.h
+++ b/lib/resdet_internal.h
@@ -72,7 +72,7 @@ struct RDAnalysis {
 	RDParameters params;
 	coeff* f;
 	resdet_plan* p;
-	intermediate* xresult,* yresult;
+	intermediate* xresult,* yresult,* xsaved;
 	rdint_index xbound[2], ybound[2];
 };
 
-- 
2.43.0


From dcc78e0b6f15a3ddd0a26303efb9a0be077651da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 41/41] fix: read the scale of a PFM file no matter how many
 digits it has

---
 lib/image/pfm.c | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9072224..8a9bbe1 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -85,31 +85,36 @@ static inline bool skip_comments(FILE* f) {
 	return c != EOF && ungetc(c,f) == c;
 }
 
+static inline size_t skip_digits(FILE* f, int* c) {
+	size_t n = 0;
+	for(; *c >= '0' && *c <= '9'; *c = fgetc(f))
+		n++;
+	return n;
+}
+
 // %f and strtof would expect the decimal separator of the current locale
 static bool read_scale(FILE* f, float* scale) {
-	char str[256];
-	if(fscanf(f," %255[-+.0-9eE]",str) != 1)
+	if(fscanf(f," ") == EOF)
 		return false;
 
-	const char* s = str;
-	*scale = *s == '-' ? -1 : 1; // only the sign matters
-	s += *s == '-' || *s == '+';
+	int c = fgetc(f);
+	*scale = c == '-' ? -1 : 1; // only the sign matters
+	if(c == '-' || c == '+')
+		c = fgetc(f);
 
-	size_t digits = strspn(s,"0123456789");
-	s += digits;
-	if(*s == '.') {
-		size_t decimals = strspn(++s,"0123456789");
-		digits += decimals;
-		s += decimals;
+	size_t digits = skip_digits(f,&c);
+	if(c == '.') {
+		c = fgetc(f);
+		digits += skip_digits(f,&c);
 	}
-	if(*s == 'e' || *s == 'E') {
-		s++;
-		s += *s == '-' || *s == '+';
-		if(!strspn(s,"0123456789"))
+	if(digits && (c == 'e' || c == 'E')) {
+		c = fgetc(f);
+		if(c == '-' || c == '+')
+			c = fgetc(f);
+		if(!skip_digits(f,&c))
 			return false;
-		s += strspn(s,"0123456789");
 	}
-	return digits && !*s;
+	return digits && ungetc(c,f) == c;
 }
 
 static void* pfm_reader_open(const char* filename, size_t* width, size_t* height, RDError* error) {
-- 
2.43.0

