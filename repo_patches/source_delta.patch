From f05814b58c799b88edb5492b2a41855ba48e772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:08 +0000
Subject: [PATCH 01/16] fix: sw842_decompress read before the output buffer on
 a repeat after less than 8 bytes

---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..74ed860 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous 8 bytes to repeat */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From 58bdd460d759bee40c6ba1faeeb647fa916ab665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:22 +0000
Subject: [PATCH 02/16] fix: optsw842_compress left *olen unchanged when
 rejecting a length

---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From 92dfdc1c092f48fbb3c2b987ecb5d0d102cb6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:22 +0000
Subject: [PATCH 03/16] fix: chunked entry points computed chunk offsets in 32
 bits

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..9511324 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From 92af2cff0ba7a87a1e533977ba4e5aa4084476f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:32 +0000
Subject: [PATCH 04/16] fix: OpenCL kernel read past a full output buffer when
 resolving a 2-byte index

---
 src/ocl/decompress.cl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..7169ae4 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -212,6 +212,15 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 		return;
 #endif
 
+#ifdef ENABLE_ERROR_HANDLING
+	// Must come before resolving the indices, which read up to 4 bytes at
+	// the referenced offset even for those which only refer to 2 bytes
+	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
+		p->errorcode = -ENOSPC;
+		return;
+	}
+#endif
+
 	for (int i = 0; i < 4; i++) {
 		// For templates 0 to 24 (inclusive), they follow a regular pattern
 		// each 5 templates. In particular, the operations which determine
@@ -255,12 +264,6 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			       << (64 - (dst_size << 3) - bits);
 		bits += dst_size << 3;
 	}
-#ifdef ENABLE_ERROR_HANDLING
-	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
-		p->errorcode = -ENOSPC;
-		return;
-	}
-#endif
 	*p->out++ = swap_native_to_be64(output_word);
 }
 
-- 
2.43.0


From 95d710055205cad5578147f343d9e71d34f76d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:00:16 +0000
Subject: [PATCH 05/16] fix: OpenCL kernel followed an embedded chunk length
 larger than the chunk

---
 src/ocl/decompress.cl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 7169ae4..81ecbf3 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -433,6 +433,16 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 		return;
 	}
 
+#ifdef ENABLE_ERROR_HANDLING
+	if (my_in[2] > CL842_CHUNK_SIZE) { // Would be before the start of the chunk
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
+#endif
+
 	// Read compressed chunk size and skip to the beginning of the chunk
 	// (the end of the chunk matches the end of the input chunk buffer)
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
-- 
2.43.0


From f2c37ddff6f7ba297c9b05dce1eda4fc8c58aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:28 +0000
Subject: [PATCH 06/16] fix: stream Block::get_chunk asserted that an
 uncompressible chunk has no source

---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From a3437fc0adf32e56b87f0d977d69cfecf30569f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:28 +0000
Subject: [PATCH 07/16] fix: decompression stream ignored failed chunks and
 used the results of skipped ones

---
 src/stream/DataDecompressionStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..0c77fd6 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -248,8 +248,11 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		// Skipped chunks have no result
+		if (input_chunk_sizes[i] == SIZE_MAX)
+			continue;
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 1865f2e20d6130f98d96058581595d9fadf1b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:28 +0000
Subject: [PATCH 08/16] fix: stream threads read the quit flag without
 synchronization

---
 include/lib842/stream/comp.h   | 3 ++-
 include/lib842/stream/decomp.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..52ea898 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic since the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..3cf3eef 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic since the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From b5870bae4b89000f6b41cfac6e4d3fc582ddfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:28:30 +0000
Subject: [PATCH 09/16] fix: cryptodev interface lost the error of creating its
 thread storage key

---
 src/cryptodev/842_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..013cdf9 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,8 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
+	else
+		thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From e00bc47e0aaf412c7a1e450b188360e88efbc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:54 +0000
Subject: [PATCH 10/16] fix: optsw842_compress read the first block of an empty
 input

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..d71458a 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -607,7 +607,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = p->ilen > 7 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 8f6469ffc93f65c61163f00a24ff585db93157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:54:02 +0000
Subject: [PATCH 11/16] fix: cl.h: declare CLDeviceDecompressor::decompress
 with the parameter order of its definition

The declaration (and its documentation) had returnValues before chunkShuffleMap, the definition has
them the other way round, so callers passed each buffer as the other one.
---
 include/lib842/cl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..610ad4a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -95,8 +95,6 @@ public:
 	*                Must be a multiple of 8.
 	* - outputChunkSizes: Specifies the maximum size to be written for each chunk.
 	*                     This is only for error-checking, and is optional (can be null).
-	* - returnValues: The error code (C errno) is written here for each chunk.
-	*                 This is only for error-checking, and is optional (can be null).
 	* - chunkShuffleMap: Determines the order in which the chunks are processed
 	*                    by the OpenCL kernel, which can influence performance
 	*                    The reason simply shuffling the order in which chunks are
@@ -108,6 +106,8 @@ public:
 	*                    chunks are processed so that all compressible (and respectively
 	*                    uncompressible) chunks are processed together can improve
 	*                    performance in those cases.
+	* - returnValues: The error code (C errno) is written here for each chunk.
+	*                 This is only for error-checking, and is optional (can be null).
 	* - events:          Event wait list before starting decompression
 	*                    (like any clEnqueueXXX OpenCL API).
 	* - event:           OpenCL event triggered after decompression finishing.
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From 980824a6d277d2eb6a088abe77e63293762aae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:54:02 +0000
Subject: [PATCH 12/16] fix: cl842_decompress: treat inputs larger than 99999
 bytes as a single chunk too

The stride made larger inputs several chunks, whose lengths and results were read and written
beyond the single ilen, olen and return value.
---
 src/ocl/cl842decompress.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..d70fae9 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <algorithm>
 #include <iterator>
+#include <limits>
 
 #define LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
 
@@ -463,7 +464,9 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536,
+			// The stride doesn't matter, as long as there's a single chunk
+			std::numeric_limits<size_t>::max() / 2,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
-- 
2.43.0


From 08332fbdc39399f9ea6221e6e7acbf2443c11741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:54:02 +0000
Subject: [PATCH 13/16] fix: OpenCL program cache: an unwritable or corrupt
 cache file must not make decompression fail

Lengths in the file are checked before they are allocated, and a failure to write the cache is
logged like a failure to read it, instead of leaving the constructor (or the C API) as an exception.
---
 src/ocl/cl842decompress.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index d70fae9..f3e235f 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -131,6 +131,21 @@ struct program_cache
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
+	static size_t readLength(std::ifstream &in) {
+		size_t length;
+		in.read(reinterpret_cast<char *>(&length), sizeof(length));
+
+		// Don't trust the length if the file is corrupt
+		auto pos = in.tellg();
+		in.seekg(0, std::ifstream::end);
+		auto end = in.tellg();
+		in.seekg(pos);
+		if (length > static_cast<size_t>(end - pos))
+			in.setstate(std::ifstream::failbit);
+
+		return length;
+	}
+
 	void readMetadata(std::ifstream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
@@ -141,8 +156,7 @@ private:
 		in.read(reinterpret_cast<char *>(&numDevices), sizeof(numDevices));
 
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t length;
-			in.read(reinterpret_cast<char *>(&length), sizeof(length));
+			size_t length = readLength(in);
 			cl::string deviceName(length, '\0');
 			in.read(&deviceName[0], deviceName.size());
 			deviceNames.push_back(deviceName);
@@ -152,8 +166,7 @@ private:
 	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
-			size_t size;
-			in.read(reinterpret_cast<char *>(&size), sizeof(size));
+			size_t size = readLength(in);
 			cl::vector<uint8_t> binary(size);
 			in.read(reinterpret_cast<char *>(binary.data()), binary.size());
 			binaries.push_back(binary);
@@ -261,7 +274,13 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	try {
+		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From 4005cd5acfa2406bfd855fcae9f6986209aa64d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:27 +0000
Subject: [PATCH 14/16] fix: optsw842_compress: references to words of a zero
 block use stale hashes

A zero block skips process_next(), so update_hashtables() filed its words
under the hashes of the last block that was processed: those references
were lost, and the stream was longer than it need be.
---
 src/serial_optimized/842_compress.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index d71458a..c1c895c 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -634,10 +634,15 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 					goto repeat;
 			}
 
-			if (next == 0)
+			if (next == 0) {
 				add_zeros_template(p);
-			else
+				/* update_hashtables() uses the hashes of this block,
+				 * not those of the last one that was processed
+				 */
+				hash(p->dataAndIndices, p->hashes);
+			} else {
 				process_next(p);
+			}
 
 		repeat:
 			last = next;
-- 
2.43.0


From 397eb3aabfe1134ddd8e6f71b29f56088094e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:28:22 +0000
Subject: [PATCH 15/16] fix: NUMA spread ignored CPUs numbered beyond the
 number of online CPUs

get_nprocs() is the number of online CPUs, not a bound on their numbers.
With offline CPUs (e.g. SMT disabled on POWER), CPUs were left out of the
sets of their nodes, and whole nodes could end up with an empty set.
---
 src/stream/numa_spread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..8f5064f 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,7 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
+#include <sched.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +44,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
@@ -59,7 +59,8 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 		cpu_set_t cpuset;
 		CPU_ZERO(&cpuset);
-		for (int c = 0; c < nprocs; c++) {
+		// CPU numbers are not contiguous if some CPUs are offline (e.g. with SMT disabled)
+		for (int c = 0; c < CPU_SETSIZE; c++) {
 			if (!numa_bitmask_isbitset(cpumask.get(), c))
 				continue;
 
-- 
2.43.0


From 0d769331be750307a24b612929649ea7ca0a9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:28:22 +0000
Subject: [PATCH 16/16] fix: NUMA spread gave up at the first node without CPUs

A memory-only node (e.g. GPU memory on POWER9) got an empty CPU set, which
pthread_setaffinity_np() rejects, leaving all remaining threads unassigned.
---
 src/stream/numa_spread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index 8f5064f..ea14c35 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -66,7 +66,9 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 			CPU_SET(c, &cpuset);
 		}
-		numa_cpusets.push_back(cpuset);
+		// Threads can't be assigned to nodes without CPUs (e.g. memory-only nodes)
+		if (CPU_COUNT(&cpuset) > 0)
+			numa_cpusets.push_back(cpuset);
 	}
 
 #ifdef LIB842_STREAM_INDEPTH_TRACE
-- 
2.43.0

