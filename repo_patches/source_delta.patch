From dabd205c9afd55e620fd0af89733bed45af46886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 01/26] fix: append a frame completed by a later call from the
 frame buffer

A frame begun by one call and completed by another was written from the
caller's pointer instead of the frame buffer, its bytes were counted twice,
and it never reached the multiscale levels.
---
 src/streaming/zarr.stream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..5d512f3 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -437,21 +437,23 @@ ZarrStream::append(const void* data_, size_t nbytes)
               std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
 
             memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data + bytes_written,
+                   data,
                    bytes_to_copy);
             frame_buffer_offset_ += bytes_to_copy;
             bytes_written += bytes_to_copy;
+            data += bytes_to_copy;
 
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
+
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-- 
2.43.0


From c4b0354a8c453a61acf71ef152bdaff5b3ab5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 02/26] fix: index the chunks of every layer of a shard under
 their own position

The shard table ignored the position along the append dimension, so with
more than one chunk layer per shard the later layers replaced the entries
of the first one.
---
 src/streaming/zarrv3.array.writer.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..fdf76a3 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,18 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // chunks are listed in the shard table under their position in the shard,
+    // which includes the chunk layer along the append dimension
+    const auto& dims = config_.dimensions;
+    size_t frames_per_layer = dims->final_dim().chunk_size_px;
+    for (auto i = 1; i < dims->ndims() - 2; ++i) {
+        frames_per_layer *= dims->at(i).array_size_px;
+    }
+    CHECK(frames_per_layer > 0);
+    CHECK(frames_written_ > 0);
+    const size_t layer_offset = (frames_written_ - 1) / frames_per_layer *
+                                dims->number_of_chunks_in_memory();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -102,6 +114,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        this](std::string& err) {
             bool success = false;
@@ -117,7 +130,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From 48e6a99651302d79c863bb4ab367b14eec9ce7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 03/26] fix: treat compressor None as uncompressed

Compression settings naming no compressor are accepted, but every chunk was
then passed to Blosc with an unknown codec.
---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 5d512f3..43a1e74 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -510,7 +510,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
         };
     }
 
-    if (is_compressed_acquisition(settings)) {
+    if (is_compressed_acquisition(settings) &&
+        settings->compression_settings->compressor != ZarrCompressor_None) {
         compression_settings_ = {
             .compressor = settings->compression_settings->compressor,
             .codec = settings->compression_settings->codec,
-- 
2.43.0


From b2f8ce5c1c967816e775db07f7a0819296feee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 04/26] fix: complete open shards and array metadata when an
 array is finalized

Finalizing an array between two chunk layers of a shard left the shard
without its index and the array metadata out of date; a shard that was not
full was never flushed to its sink (on S3 it was never uploaded); an array
that received no frame had no metadata at all.
---
 src/streaming/array.writer.cpp        | 22 ++++++++++++++--------
 src/streaming/zarrv3.array.writer.cpp |  8 +++++---
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..1947442 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,21 +395,27 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    if (bytes_to_flush_ == 0 && !is_finalizing_) {
         return;
     }
 
-    // compress buffers and write out
-    compress_buffers_();
-    CHECK(flush_impl_());
+    // compress buffers and write out; on finalizing, there may be no buffered
+    // data, but shards that still need to be completed
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
+    if (bytes_to_flush_ > 0 || !data_sinks_.empty()) {
+        CHECK(flush_impl_());
+    }
 
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
+    if (should_rollover_() || is_finalizing_) {
         rollover_();
+        CHECK(write_array_metadata_());
     }
 
-    if (should_rollover || is_finalizing_) {
-        CHECK(write_array_metadata_());
+    if (is_finalizing_) {
+        bytes_to_flush_ = 0;
+        return;
     }
 
     // reset buffers
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index fdf76a3..47103f5 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -82,9 +82,10 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     const auto n_shards = config_.dimensions->number_of_shards();
     CHECK(data_sinks_.size() == n_shards);
 
-    // get shard indices for each chunk
+    // get shard indices for each chunk (if there is anything to write)
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    const auto n_chunks = bytes_to_flush_ > 0 ? chunk_buffers_.size() : 0;
+    for (auto i = 0; i < n_chunks; ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -117,7 +118,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        layer_offset,
                                        &latch,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -146,6 +147,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     success = sink->write(*file_offset, data);
                 }
             } catch (const std::exception& exc) {
+                success = false;
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
-- 
2.43.0


From e1f8ef3e94c578a1194ece86c562c0e145309350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 05/26] fix: leave no empty metadata documents in the store

0/.zattrs was created but never written, and acquire.json stayed empty when
the custom metadata were the empty string.
---
 src/streaming/zarr.stream.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 43a1e74..1c4bf86 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -496,7 +496,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-    } else {
+    }
+    if (custom_metadata_.empty()) {
         custom_metadata_ = "{}";
     }
 
@@ -725,6 +726,21 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) { // the array has no attributes of its own
+        const std::string array_attrs = "{}";
+        std::span attrs_data{
+            reinterpret_cast<const std::byte*>(array_attrs.data()),
+            array_attrs.size()
+        };
+
+        const std::unique_ptr<zarr::Sink>& attrs_sink =
+          metadata_sinks_.at("0/.zattrs");
+        if (!attrs_sink || !attrs_sink->write(0, attrs_data)) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From db84d13e9f503fa581fdaf3634828e76daa8f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 06/26] fix: stop adding multiscale levels once nothing is left
 to halve

With chunks of a single pixel no chunk ever shrinks, and creating the stream
never returned.
---
 src/streaming/array.writer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 1947442..56a9fae 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -72,7 +72,15 @@ zarr::downsample(const ArrayWriterConfig& config,
         }
     }
 
-    return true;
+    // is there anything left to halve?
+    for (auto i = 0; i < downsampled_config.dimensions->ndims(); ++i) {
+        const auto& dim = downsampled_config.dimensions->at(i);
+        if (dim.type != ZarrDimensionType_Channel && dim.array_size_px > 1) {
+            return true;
+        }
+    }
+
+    return false;
 }
 
 /// Writer
-- 
2.43.0


From edf4b25e3df96041cd3ca070fc0357a6bc4e6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 07/26] fix: report failures to open, write or flush a file

FileSink ignored the state of its stream, so a full disk or a failing open
lost data while every call reported success, and what had been written
stayed in a user-space buffer where a crash would lose it.
---
 src/streaming/file.sink.cpp    | 13 ++++++++++---
 src/streaming/sink.creator.cpp |  8 +++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..d703e25 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,12 +1,18 @@
 #include "file.sink.hh"
 
 #include <filesystem>
+#include <stdexcept>
+#include <string>
 
 namespace fs = std::filesystem;
 
 zarr::FileSink::FileSink(std::string_view filename)
-: file_(filename.data(), std::ios::binary | std::ios::trunc)
+: file_(std::string(filename), std::ios::binary | std::ios::trunc)
 {
+    if (!file_.is_open()) {
+        throw std::runtime_error("Failed to open file '" +
+                                 std::string(filename) + "'");
+    }
 }
 
 bool
@@ -19,12 +25,13 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+    file_.flush();
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..6e74197 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -42,7 +42,13 @@ zarr::SinkCreator::make_sink(std::string_view file_path)
         }
     }
 
-    return std::make_unique<FileSink>(file_path);
+    try {
+        return std::make_unique<FileSink>(file_path);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to create file sink: ", exc.what());
+    }
+
+    return nullptr;
 }
 
 std::unique_ptr<zarr::Sink>
-- 
2.43.0


From 466eb710045b1991557ba77cfaa4680d01b2debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 08/26] fix: fail the flush when compressing or writing a chunk
 failed

The results of the compression and write jobs were dropped (a failed
compression even stored a damaged chunk), so the append that completed the
chunk reported success.
---
 src/streaming/array.writer.cpp        | 10 +++++++++-
 src/streaming/zarrv2.array.writer.cpp |  9 +++++++--
 src/streaming/zarrv3.array.writer.cpp | 10 +++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 56a9fae..19f6671 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -358,9 +358,10 @@ zarr::ArrayWriter::compress_buffers_()
 
     std::scoped_lock lock(buffers_mutex_);
     std::latch latch(chunk_buffers_.size());
+    std::atomic<bool> all_successful = true;
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -381,6 +382,8 @@ zarr::ArrayWriter::compress_buffers_()
                                               0 /* blocksize - 0:automatic */,
                                               1);
 
+                         EXPECT(nb > 0, "Blosc returned ", nb);
+
                          tmp.resize(nb);
                          buf->swap(tmp);
 
@@ -389,6 +392,10 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+
+                     if (!success) {
+                         all_successful = false;
+                     }
                      latch.count_down();
 
                      return success;
@@ -398,6 +405,7 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+    EXPECT(all_successful, "Failed to compress chunks");
 }
 
 void
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..fa5c005 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -84,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
     std::latch latch(chunk_buffers_.size());
+    std::atomic<bool> all_successful = true;
     {
         std::scoped_lock lock(buffers_mutex_);
         for (auto i = 0; i < data_sinks_.size(); ++i) {
@@ -92,7 +93,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +107,9 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         if (!success) {
+                             all_successful = false;
+                         }
                          latch.count_down();
                          return success;
                      })),
@@ -115,7 +120,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 47103f5..1196b7b 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -105,6 +105,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
+    std::atomic<bool> all_successful = true;
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
         auto& chunk_table = shard_tables_.at(i);
@@ -117,6 +118,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        layer_offset,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = true;
 
@@ -151,6 +153,12 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
+            if (!success) {
+                if (err.empty()) {
+                    err = "Failed to write shard";
+                }
+                all_successful = false;
+            }
             latch.count_down();
             return success;
         }),
@@ -170,7 +178,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);
     }
 
-    return true;
+    return all_successful;
 }
 
 bool
-- 
2.43.0


From c1e035957724cd9290345e10d92fde4d2920699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 09/26] fix: record the outcome of a directory or file job
 before releasing the latch

The waiting thread could return while the last job was about to update
all_successful on its dead stack, and a failure recorded that late was lost.
Exceptions thrown while inspecting a path escaped the job and left the latch
waiting for ever.
---
 src/streaming/sink.creator.cpp | 64 +++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 6e74197..107536d 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -272,37 +272,37 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
 
         EXPECT(thread_pool_->push_job(
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
-                     if (dirname.empty()) {
-                         err = "Directory name must not be empty.";
-                         latch.count_down();
-                         all_successful.fetch_and(0);
-                         return false;
-                     }
-
-                     if (fs::is_directory(dirname)) {
-                         latch.count_down();
-                         return true;
-                     } else if (fs::exists(dirname)) {
-                         err =
-                           "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
-                         all_successful.fetch_and(0);
-                         return false;
-                     }
+                     bool success = false;
 
-                     if (all_successful) {
-                         std::error_code ec;
-                         if (!fs::create_directories(dirname, ec)) {
+                     try {
+                         if (dirname.empty()) {
+                             err = "Directory name must not be empty.";
+                         } else if (fs::is_directory(dirname)) {
+                             success = true;
+                         } else if (fs::exists(dirname)) {
+                             err = "'" + dirname +
+                                   "' exists but is not a directory";
+                         } else if (all_successful) {
+                             std::error_code ec;
+                             success = fs::create_directories(dirname, ec) ||
+                                       fs::is_directory(dirname);
+                             if (!success) {
+                                 err = "Failed to create directory '" +
+                                       dirname + "': " + ec.message();
+                             }
+                         } else {
                              err = "Failed to create directory '" + dirname +
-                                   "': " + ec.message();
-                             latch.count_down();
-                             all_successful.fetch_and(0);
-                             return false;
+                                   "': an earlier one failed";
                          }
+                     } catch (const std::exception& exc) {
+                         err = "Failed to create directory '" + dirname +
+                               "': " + exc.what();
                      }
 
+                     // nothing may be touched after the latch is released
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
-                     return true;
+                     return success;
                  }),
                "Failed to push job to thread pool.");
 
@@ -343,15 +343,18 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                      try {
                          if (all_successful) {
                              *psink = std::make_unique<FileSink>(filename);
+                             success = true;
+                         } else {
+                             err = "Failed to create file '" + filename +
+                                   "': an earlier one failed";
                          }
-                         success = true;
                      } catch (const std::exception& exc) {
                          err = "Failed to create file '" + filename +
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -394,15 +397,18 @@ zarr::SinkCreator::make_files_(
                      try {
                          if (all_successful) {
                              *psink = std::make_unique<FileSink>(filename);
+                             success = true;
+                         } else {
+                             err = "Failed to create file '" + filename +
+                                   "': an earlier one failed";
                          }
-                         success = true;
                      } catch (const std::exception& exc) {
                          err = "Failed to create file '" + filename +
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From b30d6eb2ef0ee5b8011180c3e0ce1bc76f34d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 10/26] fix: guard the stream's error message with a mutex

Workers report errors concurrently with each other and with the caller
reading the message.
---
 src/streaming/zarr.stream.cpp | 27 ++++++++++++++++++---------
 src/streaming/zarr.stream.hh  |  5 +++++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1c4bf86..5d60df4 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -393,10 +393,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -404,22 +404,23 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const std::string error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error.c_str());
 
     if (0 == nbytes) {
         return 0;
@@ -540,7 +541,15 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
-    error_ = msg;
+    std::scoped_lock lock(error_mutex_);
+    error_ = msg.empty() ? "Unknown error" : msg;
+}
+
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
 }
 
 bool
@@ -986,7 +995,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..ff98ad8 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // workers report errors concurrently
 
     ZarrVersion version_;
     std::string store_path_;
@@ -77,6 +79,9 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /** @brief Get the error message, empty if no error occurred. */
+    std::string get_error_() const;
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From 765f31812d3d66ba4e424e46e9f18ba951a07ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 11/26] fix: refuse further appends once an append has failed

Failures detected on the caller's thread were reported once and then
forgotten; the next append went on with writers in an undefined state and
reported success.
---
 src/streaming/zarr.stream.cpp | 74 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 5d60df4..4a248c7 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -431,48 +431,54 @@ ZarrStream::append(const void* data_, size_t nbytes)
     const size_t bytes_of_frame = frame_buffer_.size();
     size_t bytes_written = 0;
 
-    while (bytes_written < nbytes) {
-        const size_t bytes_remaining = nbytes - bytes_written;
-        if (frame_buffer_offset_ > 0) { // add to / finish a partial frame
-            const size_t bytes_to_copy =
-              std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
-
-            memcpy(frame_buffer_.data() + frame_buffer_offset_,
-                   data,
-                   bytes_to_copy);
-            frame_buffer_offset_ += bytes_to_copy;
-            bytes_written += bytes_to_copy;
-            data += bytes_to_copy;
-
-            // ready to flush the frame buffer
-            if (frame_buffer_offset_ == bytes_of_frame) {
+    try {
+        while (bytes_written < nbytes) {
+            const size_t bytes_remaining = nbytes - bytes_written;
+            if (frame_buffer_offset_ > 0) { // add to / finish a partial frame
+                const size_t bytes_to_copy =
+                  std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);
+
+                memcpy(frame_buffer_.data() + frame_buffer_offset_,
+                       data,
+                       bytes_to_copy);
+                frame_buffer_offset_ += bytes_to_copy;
+                bytes_written += bytes_to_copy;
+                data += bytes_to_copy;
+
+                // ready to flush the frame buffer
+                if (frame_buffer_offset_ == bytes_of_frame) {
+                    const size_t bytes_written_this_frame =
+                      writers_[0]->write_frame(frame_buffer_);
+                    if (bytes_written_this_frame == 0) {
+                        break;
+                    }
+
+                    write_multiscale_frames_(frame_buffer_.data(),
+                                             bytes_written_this_frame);
+
+                    frame_buffer_offset_ = 0;
+                }
+            } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
+                memcpy(frame_buffer_.data(), data, bytes_remaining);
+                frame_buffer_offset_ = bytes_remaining;
+                bytes_written += bytes_remaining;
+            } else { // at least one full frame
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame(frame_buffer_);
+                  writers_[0]->write_frame({ data, bytes_of_frame });
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                write_multiscale_frames_(frame_buffer_.data(),
-                                         bytes_written_this_frame);
+                write_multiscale_frames_(data, bytes_written_this_frame);
 
-                frame_buffer_offset_ = 0;
-            }
-        } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-            memcpy(frame_buffer_.data(), data, bytes_remaining);
-            frame_buffer_offset_ = bytes_remaining;
-            bytes_written += bytes_remaining;
-        } else { // at least one full frame
-            const size_t bytes_written_this_frame =
-              writers_[0]->write_frame({ data, bytes_of_frame });
-            if (bytes_written_this_frame == 0) {
-                break;
+                bytes_written += bytes_written_this_frame;
+                data += bytes_written_this_frame;
             }
-
-            write_multiscale_frames_(data, bytes_written_this_frame);
-
-            bytes_written += bytes_written_this_frame;
-            data += bytes_written_this_frame;
         }
+    } catch (const std::exception& exc) {
+        // the writers can't be resumed after a failure
+        set_error_(exc.what());
+        throw;
     }
 
     return bytes_written;
-- 
2.43.0


From 5c62760fac94a837792a4cb9958b148fcd8bab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 12/26] fix: never publish an S3 object with a missing part,
 and return its connection

---
 src/streaming/s3.sink.cpp | 59 ++++++++++++++++++++++++++++++++++-----
 src/streaming/s3.sink.hh  |  1 +
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..0b8f9cb 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -22,6 +22,11 @@ zarr::S3Sink::S3Sink(std::string_view bucket_name,
 bool
 zarr::S3Sink::flush_()
 {
+    if (has_failed_) {
+        LOG_ERROR("Not publishing incomplete object ", object_key_);
+        return false;
+    }
+
     if (is_multipart_upload_()) {
         const auto& parts = multipart_upload_->parts;
         if (nbytes_buffered_ > 0 && !flush_part_()) {
@@ -56,6 +61,11 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         return true;
     }
 
+    if (has_failed_) {
+        LOG_ERROR("Cannot write to incomplete object ", object_key_);
+        return false;
+    }
+
     if (offset < nbytes_flushed_) {
         LOG_ERROR("Cannot write data at offset ",
                   offset,
@@ -96,6 +106,11 @@ zarr::S3Sink::put_object_()
     }
 
     auto connection = connection_pool_->get_connection();
+    if (!connection) {
+        LOG_ERROR("No S3 connection available");
+        return false;
+    }
+
     std::span data(reinterpret_cast<uint8_t*>(part_buffer_.data()),
                    nbytes_buffered_);
 
@@ -128,13 +143,20 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+    EXPECT(connection, "No S3 connection available");
+
+    MultiPartUpload upload;
+    try {
+        upload.upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+    } catch (...) {
+        connection_pool_->return_connection(std::move(connection));
+        throw;
+    }
 
     connection_pool_->return_connection(std::move(connection));
+    multipart_upload_ = std::move(upload);
 }
 
 bool
@@ -144,11 +166,23 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
+    // an object that is missing a part must not be published
+    has_failed_ = true;
+
     if (!is_multipart_upload_()) {
-        create_multipart_upload_();
+        try {
+            create_multipart_upload_();
+        } catch (const std::exception& exc) {
+            LOG_ERROR("Error: ", exc.what());
+            return false;
+        }
     }
 
     auto connection = connection_pool_->get_connection();
+    if (!connection) {
+        LOG_ERROR("No S3 connection available");
+        return false;
+    }
 
     bool retval = false;
     try {
@@ -174,6 +208,7 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+        has_failed_ = false;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
@@ -190,13 +225,23 @@ bool
 zarr::S3Sink::finalize_multipart_upload_()
 {
     auto connection = connection_pool_->get_connection();
+    if (!connection) {
+        LOG_ERROR("No S3 connection available");
+        return false;
+    }
 
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
+    // cleanup
     connection_pool_->return_connection(std::move(connection));
 
     return retval;
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..a6329f9 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -40,6 +40,7 @@ class S3Sink : public Sink
     size_t nbytes_flushed_{ 0 };
 
     std::optional<MultiPartUpload> multipart_upload_;
+    bool has_failed_{ false }; // a part of the object is missing
 
     /**
      * @brief Upload the object to S3.
-- 
2.43.0


From 6d7de3d085b2fc0dc71a315893825f1c0929d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 13/26] fix: treat a job that throws as a failed job, and join
 threads if the pool cannot be built

---
 src/streaming/thread.pool.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..0ef3a60 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -8,8 +8,14 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     const auto max_threads = std::max(std::thread::hardware_concurrency(), 1u);
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
-    for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+    try {
+        for (auto i = 0; i < n_threads; ++i) {
+            threads_.emplace_back([this] { process_tasks_(); });
+        }
+    } catch (...) {
+        // the threads already running must be joined before they are destroyed
+        await_stop();
+        throw;
     }
 }
 
@@ -88,7 +94,17 @@ zarr::ThreadPool::process_tasks_()
 
         if (auto job = pop_from_job_queue_(); job.has_value()) {
             lock.unlock();
-            if (std::string err_msg; !job.value()(err_msg)) {
+            std::string err_msg;
+            bool success = false;
+            try {
+                success = job.value()(err_msg);
+            } catch (const std::exception& exc) {
+                err_msg = exc.what();
+            } catch (...) {
+                err_msg = "Unknown error";
+            }
+
+            if (!success) {
                 error_handler_(err_msg);
             }
         }
-- 
2.43.0


From 5aa85bc51f444064dc296b2122fef946e2884e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 14/26] fix: report a failure to allocate the chunk buffers
 instead of terminating

---
 src/streaming/array.writer.cpp | 2 +-
 src/streaming/array.writer.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 19f6671..9efa312 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -235,7 +235,7 @@ zarr::ArrayWriter::make_metadata_sink_()
 }
 
 void
-zarr::ArrayWriter::make_buffers_() noexcept
+zarr::ArrayWriter::make_buffers_()
 {
     LOG_DEBUG("Creating chunk buffers");
 
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..da3f47d 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -84,7 +84,7 @@ class ArrayWriter
 
     [[nodiscard]] bool make_data_sinks_();
     [[nodiscard]] bool make_metadata_sink_();
-    void make_buffers_() noexcept;
+    void make_buffers_();
 
     bool should_flush_() const;
     virtual bool should_rollover_() const = 0;
-- 
2.43.0


From 1ea60d33df6ae92a5f5914615eed43426fba877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 15/26] fix: do not repeat a failed flush when finalizing an
 array

---
 src/streaming/array.writer.cpp | 25 +++++++++++++++++++------
 src/streaming/array.writer.hh  |  1 +
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 9efa312..88a18c3 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -415,6 +415,11 @@ zarr::ArrayWriter::flush_()
         return;
     }
 
+    // a failed flush can't be repeated: the chunks may already be compressed,
+    // or partly written
+    EXPECT(!flush_failed_, "An earlier flush failed");
+    flush_failed_ = true; // until it's done
+
     // compress buffers and write out; on finalizing, there may be no buffered
     // data, but shards that still need to be completed
     if (bytes_to_flush_ > 0) {
@@ -431,6 +436,7 @@ zarr::ArrayWriter::flush_()
 
     if (is_finalizing_) {
         bytes_to_flush_ = 0;
+        flush_failed_ = false;
         return;
     }
 
@@ -439,17 +445,21 @@ zarr::ArrayWriter::flush_()
 
     // reset state
     bytes_to_flush_ = 0;
+    flush_failed_ = false;
 }
 
 void
 zarr::ArrayWriter::close_sinks_()
 {
+    bool all_successful = true;
     for (auto i = 0; i < data_sinks_.size(); ++i) {
-        EXPECT(finalize_sink(std::move(data_sinks_[i])),
-               "Failed to finalize sink ",
-               i);
+        if (!finalize_sink(std::move(data_sinks_[i]))) {
+            LOG_ERROR("Failed to finalize sink ", i);
+            all_successful = false;
+        }
     }
     data_sinks_.clear();
+    EXPECT(all_successful, "Failed to finalize sinks");
 }
 
 void
@@ -469,19 +479,22 @@ zarr::finalize_array(std::unique_ptr<ArrayWriter>&& writer)
         return true;
     }
 
+    bool success = true;
+
     writer->is_finalizing_ = true;
     try {
         writer->flush_(); // data sinks finalized here
     } catch (const std::exception& exc) {
         LOG_ERROR("Failed to finalize array writer: ", exc.what());
-        return false;
+        success = false;
     }
 
+    // describes what has been written before, even if the last flush failed
     if (!finalize_sink(std::move(writer->metadata_sink_))) {
         LOG_ERROR("Failed to finalize metadata sink");
-        return false;
+        success = false;
     }
 
     writer.reset();
-    return true;
+    return success;
 }
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index da3f47d..d28afc7 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -75,6 +75,7 @@ class ArrayWriter
     uint32_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
+    bool flush_failed_{ false };
 
     std::shared_ptr<S3ConnectionPool> s3_connection_pool_;
 
-- 
2.43.0


From 0b7eeef3ecd8c077e076be17351a918a2e7bf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 16/26] fix: average pixels, not bytes, when downsampling
 frames

---
 src/streaming/zarr.stream.cpp | 81 ++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 20 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 4a248c7..e0befa5 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -285,6 +285,49 @@ dimension_type_to_string(ZarrDimensionType type)
     }
 }
 
+// pixels in the client's buffer are not necessarily aligned
+template<typename T>
+[[nodiscard]] T
+load_pixel(const std::byte* data, size_t index)
+{
+    T px;
+    memcpy(&px, data + index * sizeof(T), sizeof(T));
+    return px;
+}
+
+// mean of the pixels; of integers, rounded towards zero
+template<typename T>
+[[nodiscard]] T
+mean_pixel(std::initializer_list<T> pixels)
+{
+    const auto n = static_cast<int>(pixels.size());
+
+    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) {
+        // neither the sum nor the pixels themselves fit into a double
+        T quot = 0;
+        int rem = 0;
+        for (const auto& px : pixels) {
+            quot += px / static_cast<T>(n);
+            rem += static_cast<int>(px % static_cast<T>(n));
+        }
+        quot += static_cast<T>(rem / n);
+        rem %= n;
+
+        if (rem < 0 && quot > 0) {
+            --quot;
+        } else if (rem > 0 && std::is_signed_v<T> && quot < 0) {
+            ++quot;
+        }
+        return quot;
+    } else {
+        double sum = 0;
+        for (const auto& px : pixels) {
+            sum += static_cast<double>(px);
+        }
+        return static_cast<T>(sum / n);
+    }
+}
+
 template<typename T>
 [[nodiscard]] std::byte*
 scale_image(const std::byte* const src,
@@ -308,15 +351,13 @@ scale_image(const std::byte* const src,
     const auto h_pad = static_cast<double>(height + (height % downscale));
 
     const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
+      static_cast<size_t>(w_pad * h_pad * factor * bytes_of_type);
 
-    auto* dst = new T[size_downscaled];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
+    // the frame is freed as an array of bytes
+    auto* dst_bytes = new std::byte[size_downscaled];
+    auto* dst = reinterpret_cast<T*>(dst_bytes);
 
-    memset(dst, 0, size_downscaled);
+    memset(dst_bytes, 0, size_downscaled);
 
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
@@ -326,17 +367,17 @@ scale_image(const std::byte* const src,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
-
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            const auto here = load_pixel<T>(src, src_idx);
+            const auto right = load_pixel<T>(
+              src, src_idx + (1 - static_cast<int>(pad_width)));
+            const auto down = load_pixel<T>(
+              src, src_idx + width * (1 - static_cast<int>(pad_height)));
+            const auto diag = load_pixel<T>(
+              src,
+              src_idx + width * (1 - static_cast<int>(pad_height)) +
+                (1 - static_cast<int>(pad_width)));
+
+            dst[dst_idx++] = mean_pixel<T>({ here, right, down, diag });
         }
     }
 
@@ -344,7 +385,7 @@ scale_image(const std::byte* const src,
     width = static_cast<size_t>(w_pad) / 2;
     height = static_cast<size_t>(h_pad) / 2;
 
-    return reinterpret_cast<std::byte*>(dst);
+    return dst_bytes;
 }
 
 template<typename T>
@@ -366,7 +407,7 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = mean_pixel<T>({ dst[i], src[i] });
     }
 }
 } // namespace
-- 
2.43.0


From 3ca15083d41de8ba20f5ee9b5889b89ceb81989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 17/26] fix: free the intermediate frames of multiscale streams

---
 src/streaming/zarr.stream.cpp | 28 ++++++++++------------------
 src/streaming/zarr.stream.hh  |  2 +-
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e0befa5..ec32bce 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -713,7 +713,7 @@ void
 ZarrStream_s::create_scaled_frames_()
 {
     for (size_t level = 1; level < writers_.size(); ++level) {
-        scaled_frames_.emplace(level, std::nullopt);
+        scaled_frames_.emplace(level, nullptr);
     }
 }
 
@@ -1001,33 +1001,31 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::unique_ptr<std::byte[]> last_frame; // keeps data alive
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        std::unique_ptr<std::byte[]> dst(
+          scale(data, bytes_of_data, frame_width, frame_height));
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
+            average2(
+              dst.get(), bytes_of_data, scaled_frames_[i].get(), bytes_of_data);
+            std::span frame_data{ static_cast<const std::byte*>(dst.get()),
                                   bytes_of_data };
             EXPECT(writers_[i]->write_frame(frame_data),
                    "Failed to write frame to writer %zu",
                    i);
 
             // clean up this LOD
-            delete[] *scaled_frames_[i];
             scaled_frames_[i].reset();
 
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            last_frame = std::move(dst);
+            data = last_frame.get();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = std::move(dst);
             break;
         }
     }
@@ -1065,11 +1063,5 @@ finalize_stream(struct ZarrStream_s* stream)
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    for (auto& [_, frame] : stream->scaled_frames_) {
-        if (frame) {
-            delete[] *frame;
-        }
-    }
-
     return true;
 }
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index ff98ad8..4b75b7f 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -62,7 +62,7 @@ struct ZarrStream_s
     std::unordered_map<std::string, std::unique_ptr<zarr::Sink>>
       metadata_sinks_;
 
-    std::unordered_map<size_t, std::optional<std::byte*>> scaled_frames_;
+    std::unordered_map<size_t, std::unique_ptr<std::byte[]>> scaled_frames_;
 
     bool is_s3_acquisition_() const;
     bool is_compressed_acquisition_() const;
-- 
2.43.0


From 02c25da799af42e22030c85f61171e975c24cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 18/26] fix: destroy a stream that can not be completed, and
 complete what can be

---
 src/streaming/acquire.zarr.cpp |  8 ++++++--
 src/streaming/zarr.stream.cpp  | 21 +++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..a952700 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -151,8 +151,12 @@ extern "C"
 
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
-        if (!finalize_stream(stream)) {
-            return;
+        try {
+            if (!finalize_stream(stream)) {
+                LOG_ERROR("Failed to complete Zarr stream");
+            }
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error destroying Zarr stream: ", e.what());
         }
 
         delete stream;
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index ec32bce..c53e225 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -1039,16 +1039,25 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
-    if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
-        return false;
+    // one part of the store that can't be completed doesn't keep the others
+    // from being completed
+    bool success = true;
+
+    try {
+        if (!stream->write_group_metadata_()) {
+            LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
+            success = false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error finalizing Zarr stream: ", exc.what());
+        success = false;
     }
 
     for (auto& [sink_name, sink] : stream->metadata_sinks_) {
         if (!finalize_sink(std::move(sink))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
                       sink_name);
-            return false;
+            success = false;
         }
     }
     stream->metadata_sinks_.clear();
@@ -1057,11 +1066,11 @@ finalize_stream(struct ZarrStream_s* stream)
         if (!finalize_array(std::move(stream->writers_[i]))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
                       i);
-            return false;
+            success = false;
         }
     }
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    return true;
+    return success;
 }
-- 
2.43.0


From 9d9f9d32f680975cbe7f72679e97a50044c079d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 19/26] fix: write all of the buffers, at any offset, in
 VectorizedFileWriter

---
 src/streaming/vectorized.file.writer.cpp | 52 +++++++++++++++++++-----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..2b43075 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -1,6 +1,9 @@
 #include "vectorized.file.writer.hh"
 #include "macros.hh"
 
+#include <algorithm>
+#include <cerrno>
+#include <climits>
 #include <cstring>
 
 namespace {
@@ -183,20 +186,49 @@ zarr::VectorizedFileWriter::write_vectors(
         iov->iov_len = buffers[i].size();
     }
 
-    ssize_t total_bytes = 0;
+    size_t total_bytes = 0;
     for (const auto& buffer : buffers) {
-        total_bytes += static_cast<ssize_t>(buffer.size());
+        total_bytes += buffer.size();
     }
 
-    ssize_t bytes_written = pwritev(fd_,
-                                    iovecs.data(),
-                                    static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+    // pwritev takes a limited number of buffers, and may write less than asked
+    auto* iov = iovecs.data();
+    auto* const iov_end = iov + iovecs.size();
+    while (total_bytes > 0) {
+        if (iov->iov_len == 0) {
+            ++iov;
+            continue;
+        }
+
+        const ssize_t bytes_written =
+          pwritev(fd_,
+                  iov,
+                  static_cast<int>(std::min<ptrdiff_t>(iov_end - iov, IOV_MAX)),
+                  static_cast<off_t>(offset));
 
-    if (bytes_written != total_bytes) {
-        auto error = get_last_error_as_string();
-        LOG_ERROR("Failed to write file: ", error);
-        retval = false;
+        if (bytes_written < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (bytes_written <= 0) {
+            auto error = get_last_error_as_string();
+            LOG_ERROR("Failed to write file: ", error);
+            retval = false;
+            break;
+        }
+
+        // skip what has been written
+        size_t nbytes = bytes_written;
+        offset += nbytes;
+        total_bytes -= nbytes;
+        while (iov < iov_end && nbytes >= iov->iov_len) {
+            nbytes -= iov->iov_len;
+            ++iov;
+        }
+        if (nbytes > 0) {
+            iov->iov_base = static_cast<std::byte*>(iov->iov_base) + nbytes;
+            iov->iov_len -= nbytes;
+        }
     }
 #endif
     return retval;
-- 
2.43.0


From 9b0d29da55fbba2d409d758fc2c537766d321f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 20/26] fix: make the log level safe to change while other
 threads log

---
 src/logger/logger.cpp | 2 +-
 src/logger/logger.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 4f7b291..0569d37 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <thread>
 
-LogLevel Logger::current_level_ = LogLevel_Info;
+std::atomic<LogLevel> Logger::current_level_ = LogLevel_Info;
 std::mutex Logger::log_mutex_{};
 
 void
diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 4efaaf0..33d9546 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -1,5 +1,6 @@
 #include "logger.types.h"
 
+#include <atomic>
 #include <filesystem>
 #include <iostream>
 #include <mutex>
@@ -61,7 +62,7 @@ class Logger
     }
 
   private:
-    static LogLevel current_level_;
+    static std::atomic<LogLevel> current_level_;
     static std::mutex log_mutex_;
 
     static void format_arg_(std::ostream& ss) {}; // base case
-- 
2.43.0


From fd03535576a506d689b492fc2a624eca33c38643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 21/26] fix: V3 shards of 2^32 frames or more never closed

The product of the append dimension's chunk size and shard size was taken
in 32 bits; where it wrapped to zero every stream failed on closing, and
where it wrapped to a small number shards were closed early.
---
 src/streaming/zarrv3.array.writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 1196b7b..0865a89 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -267,8 +267,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = static_cast<size_t>(append_dim.chunk_size_px) *
+                                 append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 0edfc933eb640fa4b5f466aa708bcc1bfd56f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 22/26] fix: a worker that runs out of memory while it reports
 a failed job ended the process

---
 src/streaming/thread.pool.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index 0ef3a60..64ec2cf 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -94,18 +94,22 @@ zarr::ThreadPool::process_tasks_()
 
         if (auto job = pop_from_job_queue_(); job.has_value()) {
             lock.unlock();
-            std::string err_msg;
-            bool success = false;
             try {
-                success = job.value()(err_msg);
-            } catch (const std::exception& exc) {
-                err_msg = exc.what();
+                std::string err_msg;
+                bool success = false;
+                try {
+                    success = job.value()(err_msg);
+                } catch (const std::exception& exc) {
+                    err_msg = exc.what();
+                } catch (...) {
+                    err_msg = "Unknown error";
+                }
+
+                if (!success) {
+                    error_handler_(err_msg);
+                }
             } catch (...) {
-                err_msg = "Unknown error";
-            }
-
-            if (!success) {
-                error_handler_(err_msg);
+                // out of memory while reporting the failure; keep working
             }
         }
     }
-- 
2.43.0


From 50b9e0b7d353f7a6ebc1c02cd9e95a8b7a859fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 23/26] fix: wait for the jobs already pushed when another
 can't be, and count failed jobs

Running out of memory while jobs are pushed left the jobs with references to
variables that were gone; running out of it while a job reported its failure
left the caller waiting for ever.
---
 src/streaming/array.writer.cpp        |  9 +++---
 src/streaming/sink.creator.cpp        | 16 ++++++++---
 src/streaming/thread.pool.hh          | 41 +++++++++++++++++++++++++++
 src/streaming/zarrv2.array.writer.cpp |  8 +++---
 src/streaming/zarrv3.array.writer.cpp |  7 +++--
 5 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 88a18c3..9b62842 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -359,10 +359,12 @@ zarr::ArrayWriter::compress_buffers_()
     std::scoped_lock lock(buffers_mutex_);
     std::latch latch(chunk_buffers_.size());
     std::atomic<bool> all_successful = true;
+    JobsPushed pushed(latch, chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
                  [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
+                     JobDone done(latch);
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
 
@@ -389,18 +391,15 @@ zarr::ArrayWriter::compress_buffers_()
 
                          success = true;
                      } catch (const std::exception& exc) {
+                         all_successful = false;
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
 
-                     if (!success) {
-                         all_successful = false;
-                     }
-                     latch.count_down();
-
                      return success;
                  }),
                "Failed to push to job queue");
+        pushed.add_one();
     }
 
     // wait for all threads to finish
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 107536d..708afb0 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -265,6 +265,7 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
 
     const auto n_dirs = dir_paths.size();
     std::latch latch(n_dirs);
+    JobsPushed pushed(latch, n_dirs);
 
     for (auto i = 0; i < n_dirs; ++i) {
         const auto dirname = dir_paths.front();
@@ -272,6 +273,7 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
 
         EXPECT(thread_pool_->push_job(
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
+                     JobDone done(latch);
                      bool success = false;
 
                      try {
@@ -295,16 +297,16 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                                    "': an earlier one failed";
                          }
                      } catch (const std::exception& exc) {
+                         all_successful = 0;
                          err = "Failed to create directory '" + dirname +
                                "': " + exc.what();
                      }
 
-                     // nothing may be touched after the latch is released
                      all_successful.fetch_and((char)success);
-                     latch.count_down();
                      return success;
                  }),
                "Failed to push job to thread pool.");
+        pushed.add_one();
 
         dir_paths.push(dirname);
     }
@@ -328,6 +330,7 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
     sinks.resize(n_files);
     std::fill(sinks.begin(), sinks.end(), nullptr);
     std::latch latch(n_files);
+    JobsPushed pushed(latch, n_files);
 
     for (auto i = 0; i < n_files; ++i) {
         const auto filename = file_paths.front();
@@ -338,6 +341,7 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
         EXPECT(thread_pool_->push_job(
                  [filename, psink, &latch, &all_successful](
                    std::string& err) -> bool {
+                     JobDone done(latch);
                      bool success = false;
 
                      try {
@@ -349,16 +353,17 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                    "': an earlier one failed";
                          }
                      } catch (const std::exception& exc) {
+                         all_successful = 0;
                          err = "Failed to create file '" + filename +
                                "': " + exc.what();
                      }
 
                      all_successful.fetch_and((char)success);
-                     latch.count_down();
 
                      return success;
                  }),
                "Failed to push job to thread pool.");
+        pushed.add_one();
     }
 
     latch.wait();
@@ -380,6 +385,7 @@ zarr::SinkCreator::make_files_(
 
     const auto n_files = file_paths.size();
     std::latch latch(n_files);
+    JobsPushed pushed(latch, n_files);
 
     sinks.clear();
     for (const auto& filename : file_paths) {
@@ -392,6 +398,7 @@ zarr::SinkCreator::make_files_(
         EXPECT(thread_pool_->push_job(
                  [filename = file_path, psink, &latch, &all_successful](
                    std::string& err) -> bool {
+                     JobDone done(latch);
                      bool success = false;
 
                      try {
@@ -403,16 +410,17 @@ zarr::SinkCreator::make_files_(
                                    "': an earlier one failed";
                          }
                      } catch (const std::exception& exc) {
+                         all_successful = 0;
                          err = "Failed to create file '" + filename +
                                "': " + exc.what();
                      }
 
                      all_successful.fetch_and((char)success);
-                     latch.count_down();
 
                      return success;
                  }),
                "Failed to push job to thread pool.");
+        pushed.add_one();
     }
 
     latch.wait();
diff --git a/src/streaming/thread.pool.hh b/src/streaming/thread.pool.hh
index c04c966..9ae31ba 100644
--- a/src/streaming/thread.pool.hh
+++ b/src/streaming/thread.pool.hh
@@ -2,6 +2,7 @@
 
 #include <condition_variable>
 #include <functional>
+#include <latch>
 #include <mutex>
 #include <optional>
 #include <queue>
@@ -53,4 +54,44 @@ class ThreadPool
     [[nodiscard]] bool should_stop_() const noexcept;
     void process_tasks_();
 };
+
+/**
+ * @brief Counts a latch down at the end of a job, even if it throws.
+ */
+class JobDone
+{
+  public:
+    explicit JobDone(std::latch& latch)
+      : latch_(latch)
+    {
+    }
+    ~JobDone() { latch_.count_down(); }
+
+  private:
+    std::latch& latch_;
+};
+
+/**
+ * @brief Waits for the jobs already pushed, also when another one can't be, as
+ * they refer to variables of the function that pushes them.
+ */
+class JobsPushed
+{
+  public:
+    JobsPushed(std::latch& latch, size_t n_jobs)
+      : latch_(latch)
+      , n_left_(n_jobs)
+    {
+    }
+    ~JobsPushed()
+    {
+        latch_.count_down(static_cast<std::ptrdiff_t>(n_left_));
+        latch_.wait();
+    }
+    void add_one() { --n_left_; }
+
+  private:
+    std::latch& latch_;
+    size_t n_left_;
+};
 } // zarr
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index fa5c005..3b44c58 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -85,6 +85,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     std::latch latch(chunk_buffers_.size());
     std::atomic<bool> all_successful = true;
+    JobsPushed pushed(latch, chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
         for (auto i = 0; i < data_sinks_.size(); ++i) {
@@ -95,6 +96,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                 size = chunk.size(),
                                 &latch,
                                 &all_successful](std::string& err) -> bool {
+                         JobDone done(latch);
                          bool success = false;
                          try {
                              std::span data{
@@ -103,17 +105,15 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                              CHECK(sink->write(0, data));
                              success = true;
                          } catch (const std::exception& exc) {
+                             all_successful = false;
                              err = "Failed to write chunk: " +
                                    std::string(exc.what());
                          }
 
-                         if (!success) {
-                             all_successful = false;
-                         }
-                         latch.count_down();
                          return success;
                      })),
                    "Failed to push job to thread pool");
+            pushed.add_one();
         }
     }
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 0865a89..18f09f5 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -106,6 +106,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
     std::atomic<bool> all_successful = true;
+    JobsPushed pushed(latch, n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
         auto& chunk_table = shard_tables_.at(i);
@@ -120,6 +121,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &latch,
                                        &all_successful,
                                        this](std::string& err) {
+            JobDone done(latch);
             bool success = true;
 
             try {
@@ -150,19 +152,20 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 }
             } catch (const std::exception& exc) {
                 success = false;
+                all_successful = false;
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
             if (!success) {
+                all_successful = false;
                 if (err.empty()) {
                     err = "Failed to write shard";
                 }
-                all_successful = false;
             }
-            latch.count_down();
             return success;
         }),
                "Failed to push job to thread pool");
+        pushed.add_one();
     }
 
     // wait for all threads to finish
-- 
2.43.0


From d286dd68335ce12c43ecd817ccf905a2bb99a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 24/26] fix: running out of memory while a failure is logged
 let an exception through the C API

---
 src/logger/logger.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 33d9546..22ef135 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -18,7 +18,7 @@ class Logger
                            int line,
                            const char* func,
                            Args&&... args)
-    {
+    try {
         namespace fs = std::filesystem;
 
         if (level < current_level_) {
@@ -59,6 +59,8 @@ class Logger
         *stream << message << std::endl;
 
         return message;
+    } catch (const std::exception&) {
+        return ""; // logging a failure must not be another one
     }
 
   private:
-- 
2.43.0


From ecabd911e6d6312b4bdcf38773dfd3d5f4e2a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 25/26] fix: an append that ran out of memory while its failure
 was recorded could be followed by one that succeeded

---
 src/streaming/zarr.stream.cpp | 8 ++++++--
 src/streaming/zarr.stream.hh  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index c53e225..98665be 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -586,10 +586,14 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 }
 
 void
-ZarrStream_s::set_error_(const std::string& msg)
+ZarrStream_s::set_error_(std::string_view msg)
 {
     std::scoped_lock lock(error_mutex_);
-    error_ = msg.empty() ? "Unknown error" : msg;
+    try {
+        error_ = msg.empty() ? "Unknown error" : msg;
+    } catch (const std::bad_alloc&) {
+        error_ = "Out of memory"; // short enough not to be allocated
+    }
 }
 
 std::string
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index 4b75b7f..ebbd03a 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -12,6 +12,7 @@
 #include <memory>  // unique_ptr
 #include <mutex>
 #include <optional>
+#include <string_view>
 
 struct ZarrStream_s
 {
@@ -77,7 +78,7 @@ struct ZarrStream_s
      * @brief Set an error message.
      * @param msg The error message to set.
      */
-    void set_error_(const std::string& msg);
+    void set_error_(std::string_view msg);
 
     /** @brief Get the error message, empty if no error occurred. */
     std::string get_error_() const;
-- 
2.43.0


From eecb7e3e5a392048c4bfb3c3a5573495f6c888c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 26/26] fix: a store path ending in '/' or '/.' could not be
 created again, or was emptied and refused

---
 src/streaming/zarr.stream.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 98665be..4d83e7f 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -56,10 +56,23 @@ validate_s3_settings(const ZarrS3Settings* settings)
     return true;
 }
 
+// "path/" and "path/." name the directory "path", but unlike it they can't
+// always be created or removed
+[[nodiscard]] fs::path
+without_trailing_slash(fs::path path)
+{
+    while ((!path.has_filename() || path.filename() == ".") &&
+           path.has_parent_path() && path != path.root_path()) {
+        path = path.parent_path();
+    }
+
+    return path;
+}
+
 [[nodiscard]] bool
 validate_filesystem_store_path(std::string_view data_root)
 {
-    fs::path path(data_root);
+    fs::path path = without_trailing_slash(data_root);
     fs::path parent_path = path.parent_path();
     if (parent_path.empty()) {
         parent_path = ".";
@@ -557,6 +570,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
             .secret_access_key =
               zarr::trim(settings->s3_settings->secret_access_key),
         };
+    } else {
+        store_path_ = without_trailing_slash(store_path_).string();
     }
 
     if (is_compressed_acquisition(settings) &&
-- 
2.43.0

