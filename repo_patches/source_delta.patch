From e1ef44533e6eb15be2c4af5901b93e33e478fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 01/10] fix: refuse chunks whose stored checksum is missing

unpack() only verified a digest that was non-empty, so a container whose
last digest was cut off was decompressed without any verification.
---
 bloscpack/abstract_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..be9ad5a 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,8 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        # a digest that could not be read, or only in part, is a mismatch too
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From d6f733d196445fba0325aa9c1830ee67a58a9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 02/10] fix: verify the last chunk before appending to it

A corrupted last chunk was decompressed and stored again under a fresh,
valid checksum.
---
 bloscpack/append.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..5c90ea9 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -52,6 +52,7 @@ from .headers import check_range
 from .metacodecs import check_valid_codec
 from .serializers import check_valid_serializer
 from .exceptions import (NotEnoughSpace,
+                         ChecksumMismatch,
                          NonUniformTypesize,
                          )
 from .pretty import (double_pretty_size,
@@ -117,7 +118,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                "Checksum mismatch detected in last chunk, "
+                "expected: '%s', received: '%s'" %
+                (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From f1532ea67ed4c6901d74dd9ea7667c19b24ccfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 03/10] fix: find the offsets when the metadata is null

Appending to a container whose metadata is the JSON value null wrote the
offsets over the metadata section.
---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5c90ea9..e5ef577 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -112,7 +112,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if metadata_header is not None else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From e014cd78be5a67eb396d27f8a39897704981f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 04/10] fix: append an empty file without a ZeroDivisionError

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e5ef577..3ae0774 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -226,8 +226,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From a271f6e5f00a3095be792c47ad553ec8134d428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 05/10] fix: report command line failures on Python 3

Exceptions have no 'message' attribute on Python 3, so that the error
handlers themselves failed with an AttributeError.
---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From 15a04cc76085fef1d8f81e3ce63ebbc54791c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 06/10] fix: let set_level set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From 8b3659449e9adf3ed6b9cc80007ec6e731a97b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 07/10] fix: never write past the end of the unpacked array

PlainNumpySink decompressed every chunk to the next address without looking
at its size, so that a container with more data than its metadata announces
overwrote foreign memory.
---
 bloscpack/numpy_io.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..27d7138 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -22,8 +22,12 @@ from .file_io import (CompressedFPSource,
 from .args import (BloscArgs,
                    calculate_nchunks,
                    )
+from .constants import (BLOSC_HEADER_LENGTH,
+                        )
 from .defaults import (DEFAULT_CHUNK_SIZE,
                        )
+from .headers import (decode_blosc_header,
+                      )
 from .abstract_io import (PlainSource,
                           PlainSink,
                           )
@@ -140,8 +144,14 @@ class PlainNumpySink(PlainSink):
                                    dtype=numpy.dtype(dtype_),
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        self.end = self.ptr + self.ndarray.nbytes
 
     def put(self, compressed):
+        # Blosc writes as many bytes as the chunk says, make sure they fit
+        nbytes = decode_blosc_header(compressed[:BLOSC_HEADER_LENGTH])['nbytes']
+        if nbytes > self.end - self.ptr:
+            raise ValueError("chunk of '%d' bytes does not fit into the array"
+                             % nbytes)
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
         return bwritten
-- 
2.43.0


From 3f8f059e0baa35f0215a185680ed52214d7c545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 08/10] fix: refuse object arrays when unpacking

The chunks of such a container would have been used as object pointers.
---
 bloscpack/numpy_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 27d7138..23900ac 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -140,8 +140,11 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        dtype_ = numpy.dtype(dtype_)
+        if dtype_.hasobject:
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
         self.end = self.ptr + self.ndarray.nbytes
-- 
2.43.0


From 660e36de6b7a1f1cb86ad96f01223748b5458e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 09/10] fix: unpack arrays of padded structured types

The 'descr' of such a type lists the padding as nameless fields, which
numpy.dtype() turns into additional fields, so that the type of the unpacked
array was not the original one.
---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 23900ac..d4e90a3 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -140,7 +140,8 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
-        dtype_ = numpy.dtype(dtype_)
+        # unlike numpy.dtype() this knows about the padding in a 'descr'
+        dtype_ = numpy.lib.format.descr_to_dtype(dtype_)
         if dtype_.hasobject:
             raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-- 
2.43.0


From 657524deb95d537c8a19488b8408732f59702896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 10/10] fix: apply the requested number of threads when it
 equals the number of cores

blosc starts with min(ncores, 8) threads, so on a machine with more than
eight cores '-n <ncores>' (and the default, documented as ncores) was
ignored while 'using <ncores> threads' was printed.
---
 bloscpack/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..2531a86 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -167,10 +167,12 @@ def process_metadata_args(args):
 
 def process_nthread_arg(args):
     """ Extract and set nthreads. """
-    if args.nthreads != blosc.ncores:
-        blosc.set_nthreads(args.nthreads)
+    # blosc itself starts with at most 8 threads, even when there are more
+    # cores; the default may be more cores than it can use
+    nthreads = min(args.nthreads, blosc.BLOSC_MAX_THREADS)
+    blosc.set_nthreads(nthreads)
     log.verbose('using %d thread%s' %
-                (args.nthreads, 's' if args.nthreads > 1 else ''))
+                (nthreads, 's' if nthreads > 1 else ''))
 
 
 def log_metadata(metadata):
-- 
2.43.0

