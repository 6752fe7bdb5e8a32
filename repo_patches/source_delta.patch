From 1ea32ac2a0127498ba71c5c05d896a0417894605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/47] fix: size the decompression buffer to the point record

A fixed 255 byte stack buffer overflowed for records with more than 217-225 extra bytes.
---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From e7d2bd7cefa1408e259ba2753470c9432669aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 02/47] fix: do not read past the end of full-length LAS header
 text fields

---
 cpp/src/las/header.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..459094e 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -50,6 +50,9 @@ void LasHeader::SetGpsTimeBit() { global_encoding |= 1; }
 
 uint16_t LasHeader::EbByteSize() const { return copc::las::EbByteSize(point_format_id_, point_record_length_); }
 
+// LAS text fields are only NUL-terminated when they are shorter than the field
+static std::string FixedString(const char *field, size_t size) { return std::string(field, strnlen(field, size)); }
+
 LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
 {
     LasHeader h;
@@ -58,11 +61,11 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = FixedString(header.guid, sizeof(header.guid));
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = FixedString(header.system_identifier, sizeof(header.system_identifier));
+    h.generating_software_ = FixedString(header.generating_software, sizeof(header.generating_software));
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From 07431cdc0795542016f0f295d1139258f22e5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 03/47] fix: ChangeNodePage updates the node's page key

A second move of the same node looked it up in the page it had already left.
---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..c30a1c0 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,8 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From 096709a88abb74d506eba505d50eedd7f403d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/47] fix: reject negative point counts for compressed chunks

---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index c30a1c0..3347cc7 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From 38afc41137a40ae41bedf50bd5718aa226fa7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/47] fix: reject chunks written after the writer was closed

They were appended after the header, chunk table and hierarchy had been finalised.
---
 cpp/src/io/laz_base_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..d7fc74f 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,6 +112,9 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed!");
+
     uint64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-- 
2.43.0


From 151f787262089f73ab6757a0b58c6b3919449702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 06/47] fix: detect a failed output stream in WriteChunk

tellp() reports failure as -1, which an unsigned comparison with 0 never sees.
---
 cpp/src/io/laz_base_writer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index d7fc74f..b80222c 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -115,7 +115,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed!");
 
-    uint64_t startpos = out_stream_.tellp();
+    int64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -128,11 +128,11 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 
     point_count_ += point_count;
 
-    uint64_t endpos = out_stream_.tellp();
+    int64_t endpos = out_stream_.tellp();
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
-- 
2.43.0


From c6de722ec842493863ab9767ca0840dd8ee7e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/47] fix: report output errors from Close instead of
 returning normally

A file that could not be written completely (for instance on a full disk) was reported as closed.
Close also no longer starts over, with already rebased chunk offsets, after it failed half way.
---
 cpp/src/io/copc_writer_internal.cpp |  4 +++-
 cpp/src/io/laz_base_writer.cpp      | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..6e01af4 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -46,6 +46,7 @@ void WriterInternal::Close()
 {
     if (!open_)
         return;
+    open_ = false;
 
     WriteChunkTable();
 
@@ -64,7 +65,8 @@ void WriterInternal::Close()
 
     WriteHeader();
 
-    open_ = false;
+    if (out_stream_.flush().fail())
+        throw std::runtime_error("WriterInternal::Close: Error while writing file!");
 }
 
 // Writes the LAS header and VLRs
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index b80222c..3724f0b 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -148,6 +148,7 @@ void BaseWriter::Close()
 {
     if (!open_)
         return;
+    open_ = false;
 
     WriteChunkTable();
 
@@ -159,7 +160,8 @@ void BaseWriter::Close()
 
     WriteHeader();
 
-    open_ = false;
+    if (out_stream_.flush().fail())
+        throw std::runtime_error("BaseWriter::Close: Error while writing file!");
 }
 
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
@@ -172,7 +174,10 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+    f_stream_.close();
+    if (f_stream_.fail())
+        throw std::runtime_error("BaseFileWriter::Close: Error while writing file!");
 }
 } // namespace copc::laz
-- 
2.43.0


From 854ffeb11211c058db9c57d419cdeddd57214790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 08/47] fix: writer destructors no longer terminate the program

Close() throws when the file cannot be finished, and the destructors let that escape.
The file writers also close their file when finishing it fails.
---
 cpp/include/copc-lib/io/copc_writer.hpp       | 24 +++++++++++++++++--
 .../io/internal/copc_writer_internal.hpp      | 12 +++++++++-
 cpp/include/copc-lib/io/laz_base_writer.hpp   | 12 +++++++++-
 cpp/include/copc-lib/io/laz_writer.hpp        | 22 +++++++++++++++--
 cpp/src/io/copc_writer_public.cpp             | 12 ++++++++--
 5 files changed, 74 insertions(+), 8 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..e14fbb3 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,17 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    ~Writer()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+            // destructors must not throw, call Close() to learn about errors
+        }
+    }
 
   protected:
     Writer() = default;
@@ -89,7 +99,17 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+            // destructors must not throw, call Close() to learn about errors
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 8ca65fd..06cbdc2 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -20,7 +20,17 @@ class WriterInternal : laz::BaseWriter
     // Writes the header and COPC vlrs
     void Close() override;
     // Call close on destructor if needed
-    ~WriterInternal() { Close(); }
+    ~WriterInternal()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+            // destructors must not throw, call Close() to learn about errors
+        }
+    }
 
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..68fadef 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,7 +41,17 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    ~BaseWriter()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+            // destructors must not throw, call Close() to learn about errors
+        }
+    }
 
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..ba4f38c 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -48,10 +48,28 @@ class LazFileWriter : BaseFileWriter, public LazWriter
     }
     void Close()
     {
-        LazWriter::Close();
+        try
+        {
+            LazWriter::Close();
+        }
+        catch (...)
+        {
+            f_stream_.close();
+            throw;
+        }
         BaseFileWriter::Close();
     };
-    ~LazFileWriter() { Close(); };
+    ~LazFileWriter()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+            // destructors must not throw, call Close() to learn about errors
+        }
+    }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 3347cc7..7813c53 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -174,8 +174,16 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
 
 void FileWriter::Close()
 {
-    if (writer_ != nullptr)
-        writer_->Close();
+    try
+    {
+        if (writer_ != nullptr)
+            writer_->Close();
+    }
+    catch (...)
+    {
+        f_stream_.close();
+        throw;
+    }
     laz::BaseFileWriter::Close();
 }
 
-- 
2.43.0


From 5acde5f92702e1cea3a8241ded725a5a134d1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 09/47] fix: file readers release their stream when opening
 fails

---
 cpp/include/copc-lib/io/copc_reader.hpp | 17 +++++++++++++----
 cpp/include/copc-lib/io/laz_reader.hpp  | 15 ++++++++++++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..056dc03 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -89,12 +89,21 @@ class FileReader : public Reader
         auto f_stream = new std::fstream;
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
-            throw std::runtime_error("FileReader: Error while opening file path.");
         in_stream_ = f_stream;
 
-        InitReader();
-        InitCopcReader();
+        try
+        {
+            if (!f_stream->good())
+                throw std::runtime_error("FileReader: Error while opening file path.");
+
+            InitReader();
+            InitCopcReader();
+        }
+        catch (...)
+        {
+            Close();
+            throw;
+        }
     }
 
     void Close()
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..1d8885c 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -28,11 +28,20 @@ class LazFileReader : public LazReader
         auto f_stream = new std::fstream;
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
-        if (!f_stream->good())
-            throw std::runtime_error("LazFileReader: Error while opening file path.");
         in_stream_ = f_stream;
 
-        InitReader();
+        try
+        {
+            if (!f_stream->good())
+                throw std::runtime_error("LazFileReader: Error while opening file path.");
+
+            InitReader();
+        }
+        catch (...)
+        {
+            Close();
+            throw;
+        }
     }
 
     void Close()
-- 
2.43.0


From 6605626b43689508083c471712d4bb8f7af19406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 10/47] fix: read the WKT, extra bytes and extents records
 whether they are VLRs or EVLRs

---
 cpp/include/copc-lib/io/base_reader.hpp | 3 +++
 cpp/src/io/base_reader.cpp              | 9 +++++++--
 cpp/src/io/copc_reader.cpp              | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 9e4d52a..296ec4b 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -38,6 +38,9 @@ class BaseReader
     static uint64_t FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, const std::string &user_id,
                              uint16_t record_id);
 
+    // Size of the header in front of a record, which depends on whether it is extended
+    static int VlrHeaderSize(const las::VlrHeader &vlr);
+
     // Finds and loads the WKT vlr
     las::WktVlr ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs);
     // Finds and loads EB vlr
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..29c4417 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs[offset]));
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,12 +79,17 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs[offset]));
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
 }
 
+int BaseReader::VlrHeaderSize(const las::VlrHeader &vlr)
+{
+    return vlr.evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE;
+}
+
 uint64_t BaseReader::FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, const std::string &user_id,
                               uint16_t record_id)
 {
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..8225dcf 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -47,7 +47,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + VlrHeaderSize(vlrs[offset]));
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -55,7 +55,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset + VlrHeaderSize(vlrs[extended_offset]));
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From 0ba310739bbe1dba9a72716581c9544040505582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 11/47] fix: give files without an extents record one extent
 per extra bytes field

A configuration copied from such a file could not be written: the extents record had the wrong size.
---
 cpp/src/io/copc_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 8225dcf..37de58d 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -63,7 +63,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(reader_->header().point_format_id, static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From 92e1d64016cc1998af0269ff72e9b61cbf40b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 12/47] fix: LasHeader::ApplyInverseScale is the inverse of
 ApplyScale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From ab9399980d8099e3c7af9b4253f286c9de3529d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 13/47] fix: CopcExtent rejects a negative variance from a
 vector too

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..8f1a46f 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From df4ea150897fa22e39cf4af5b82ed92adcb729eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 14/47] fix: reject extra bytes data types outside of the LAS
 table

They indexed past the end of the size table.
---
 cpp/src/las/vlr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..0342c0c 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -1,6 +1,8 @@
 #include "copc-lib/las/vlr.hpp"
 #include "copc-lib/las/utils.hpp"
 
+#include <iterator>
+
 namespace copc::las
 {
 
@@ -14,8 +16,10 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
-        else
+        else if (item.data_type < std::size(EXTRA_BYTE_DATA_TYPE))
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
+        else
+            throw std::runtime_error("NumBytesFromExtraBytes: Invalid extra bytes data type.");
     }
     return out;
 }
-- 
2.43.0


From 824ef7cbf3ccba52cb0872ec4306a201c814364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 15/47] fix: ScanAngleDegrees rounds to the nearest angle and
 rejects unrepresentable ones

Truncation made setting the value just read change the stored angle.
---
 cpp/include/copc-lib/las/point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 9e3c53f..2f45356 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -66,7 +66,10 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(scan_angle / 0.006f); }
+    void ScanAngleDegrees(const float &scan_angle)
+    {
+        scan_angle_ = RemoveScale<int16_t>(scan_angle, 0.006f, 0);
+    }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From 23d6f5f14bc68424394302fdf9d9bac89cfb103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 16/47] fix: reject coordinates that do not fit, NaN included,
 wherever a scale is removed

The header's RemoveScale functions, and a NaN coordinate in a packed point, converted out of range doubles to integers.
---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 cpp/include/copc-lib/las/utils.hpp  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 0d67bd7..7a8dba3 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..f9ea887 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From 87290c4be55a1590a93784dcaa95e21490820e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 17/47] fix: Points::PointSourceId keeps all 16 bits of the
 point source ids

---
 cpp/include/copc-lib/las/points.hpp | 7 ++++---
 python/bindings.cpp                 | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..4a469e9 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,16 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint8_t> &in) { PointSourceId(std::vector<uint16_t>(in.begin(), in.end())); }
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From 532a64c9c13675df76852d8bb602f96ce22b80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 18/47] fix: extra bytes fields are compared over their whole
 value arrays

Only 3 of the 24 bytes were compared.
---
 cpp/include/copc-lib/las/vlr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..9bd29b2 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,9 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 && std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 && std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From 0fe51837798de93b4a015758af27fc6dc3a6f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 19/47] fix: read_concat_xyz_class_limit returns an empty array
 when there are no nodes

---
 python/copclib/mp/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..2dbc182 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -191,7 +191,7 @@ def read_concat_xyz_class_limit(
 
     # Concatenate all the points in the end, and return one large array of
     # all the points in the file
-    return np.concatenate(all_xyz)
+    return np.concatenate(all_xyz) if all_xyz else np.empty((0, 3))
 
 
 def read_map_xyz_class_limit(
-- 
2.43.0


From 03d281c751b7a313416b64611c1600ccb6ac0999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 20/47] fix: GetAllChildrenOfPage finds a page whose node sits
 in a page further up

The answer depended on which pages had been loaded before.
---
 cpp/src/io/copc_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 37de58d..dc535af 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -166,6 +166,12 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    // The node may be in a page above the ones that lead to the page of that key, so load those too
+    auto parents_list = key.GetParents(true);
+    for (auto page = hierarchy_->NearestLoadedPage(parents_list); page != nullptr && !page->loaded;
+         page = hierarchy_->NearestLoadedPage(parents_list))
+        ReadAndParsePage(page);
+
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From f79e4be08feac0983d65f785b53d3edd1882e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 21/47] fix: a failed read does not affect later ones, and
 missing node data is an error

The stream kept its error state, so that every later read failed, and compressed data
past the end of the file was returned as zeros.
---
 cpp/src/io/copc_reader.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index dc535af..e618c8b 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -73,7 +73,8 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     if (!page->IsValid())
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
-    // reset the stream to the page's offset
+    // reset the stream to the page's offset, errors of earlier reads included
+    in_stream_->clear();
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
@@ -112,6 +113,7 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     auto las_header = config_.LasHeader();
@@ -137,11 +139,18 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    in_stream_->clear();
+    in_stream_->seekg(0, std::ios::end);
+    auto file_size = static_cast<uint64_t>(in_stream_->tellg());
+    if (node.offset > file_size || static_cast<uint64_t>(node.byte_size) > file_size - node.offset)
+        throw std::runtime_error("Reader::GetPointDataCompressed: Node data is not within the file.");
     in_stream_->seekg(node.offset);
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
+    if (!in_stream_->good())
+        throw std::runtime_error("Reader::GetPointDataCompressed: Error while reading node data.");
     return out;
 }
 
-- 
2.43.0


From 3615bc4603586634563880e6a63762218005224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 22/47] fix: reject hierarchies whose pages form a cycle, and
 survive deeply nested ones

A page that refers to itself or to a page above it made the reader recurse until the stack overflowed.
---
 cpp/include/copc-lib/hierarchy/entry.hpp      |  6 ++---
 .../copc-lib/hierarchy/internal/hierarchy.hpp |  7 +++++
 cpp/include/copc-lib/io/copc_base_io.hpp      |  2 +-
 cpp/include/copc-lib/las/utils.hpp            |  2 +-
 cpp/src/io/copc_base_io.cpp                   | 26 +++++++++++--------
 cpp/src/io/copc_reader.cpp                    |  6 ++++-
 6 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/entry.hpp b/cpp/include/copc-lib/hierarchy/entry.hpp
index cb4eaba..30013b8 100644
--- a/cpp/include/copc-lib/hierarchy/entry.hpp
+++ b/cpp/include/copc-lib/hierarchy/entry.hpp
@@ -56,11 +56,11 @@ class Entry
         in_stream.read(reinterpret_cast<char *>(&key.y), sizeof(key.y));
         in_stream.read(reinterpret_cast<char *>(&key.z), sizeof(key.z));
 
-        uint64_t offset;
+        uint64_t offset{};
         in_stream.read(reinterpret_cast<char *>(&offset), sizeof(offset));
-        int32_t size;
+        int32_t size{};
         in_stream.read(reinterpret_cast<char *>(&size), sizeof(size));
-        int32_t point_count;
+        int32_t point_count{};
         in_stream.read(reinterpret_cast<char *>(&point_count), sizeof(point_count));
 
         return Entry(key, offset, size, point_count);
diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index e5ea74a..d837b05 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -29,6 +29,13 @@ class Hierarchy
             std::make_shared<PageInternal>(VoxelKey::RootKey(), root_hier_offset, root_hier_size);
     };
 
+    ~Hierarchy()
+    {
+        // Pages own their sub pages: unlink them, or destroying a long chain of pages would recurse along it
+        for (auto &page : seen_pages_)
+            page.second->sub_pages.clear();
+    }
+
     // Find the lowest depth page that has been seen within a hierarchy list
     std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
     {
diff --git a/cpp/include/copc-lib/io/copc_base_io.hpp b/cpp/include/copc-lib/io/copc_base_io.hpp
index 5136187..bb9bf72 100644
--- a/cpp/include/copc-lib/io/copc_base_io.hpp
+++ b/cpp/include/copc-lib/io/copc_base_io.hpp
@@ -29,7 +29,7 @@ class BaseIO
     std::shared_ptr<Internal::Hierarchy> hierarchy_;
     virtual std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) = 0;
     void ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page);
-    // Recursively reads all subpages and nodes given a root and returns all the nodes that were loaded
+    // Reads all subpages and nodes given a root and returns all the nodes that were loaded
     void LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes);
 };
 
diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index f9ea887..d42fb77 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -29,7 +29,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 
 template <typename T> T unpack(std::istream &in_stream)
 {
-    T value;
+    T value{};
     in_stream.read(reinterpret_cast<char *>(&value), sizeof(T));
     return value;
 }
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..10d694a 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -33,19 +33,23 @@ Node BaseIO::FindNode(VoxelKey key)
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
 {
-    if (!page->IsValid())
-        return;
+    // Not recursive, since the file decides how deep pages are nested
+    std::vector<std::shared_ptr<Internal::PageInternal>> pages{page};
+    while (!pages.empty())
+    {
+        auto current = pages.back();
+        pages.pop_back();
+        if (!current->IsValid())
+            continue;
 
-    if (!page->loaded)
-        ReadAndParsePage(page);
+        if (!current->loaded)
+            ReadAndParsePage(current);
 
-    for (const auto &sub_page : page->sub_pages)
-    {
-        LoadPageHierarchy(sub_page, loaded_nodes);
-    }
-    for (const auto &node : page->nodes)
-    {
-        loaded_nodes.push_back(*node.second);
+        pages.insert(pages.end(), current->sub_pages.begin(), current->sub_pages.end());
+        for (const auto &node : current->nodes)
+        {
+            loaded_nodes.push_back(*node.second);
+        }
     }
 }
 
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index e618c8b..7208de3 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -2,6 +2,7 @@
 #include <iomanip>
 #include <iostream>
 #include <stdexcept>
+#include <unordered_set>
 
 #include "copc-lib/copc/copc_config.hpp"
 #include "copc-lib/copc/extents.hpp"
@@ -78,12 +79,15 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
+    std::unordered_set<VoxelKey> sub_pages;
     int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
-        if (!e.IsValid())
+        if (!in_stream_->good() || !e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
+        if (e.IsPage() && (hierarchy_->PageExists(e.key) || !sub_pages.insert(e.key).second))
+            throw std::runtime_error("Page is referenced more than once! " + e.ToString());
 
         out.push_back(e);
     }
-- 
2.43.0


From 51665865d064c2a20483e2b4074fb42798325d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 23/47] fix: GetDepthAtResolution terminates on files with an
 infinite spacing and a huge depth

---
 cpp/src/io/copc_reader.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 7208de3..0b50d0c 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -295,13 +295,13 @@ int32_t Reader::GetDepthAtResolution(double resolution)
             max_depth = node.key.d;
     }
 
-    // If query resolution is <=0 return the octree's max depth
-    if (resolution <= 0.0)
-        return max_depth;
-
     auto current_resolution = config_.CopcInfo().spacing;
 
-    for (int32_t i = 0; i <= max_depth; i++)
+    // If query resolution is <=0 return the octree's max depth, no depth satisfies an infinite spacing
+    if (resolution <= 0.0 || !std::isfinite(current_resolution))
+        return max_depth;
+
+    for (int32_t i = 0; i < max_depth; i++)
     {
         if (current_resolution <= resolution)
             return i;
-- 
2.43.0


From 4c3a88599562a521968ed4fbe0f42cf366953bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 24/47] fix: reject VLRs and EVLRs that are not within the file

Truncated records were read as zeros or uninitialised values, and a forged record count or length
kept the reader looping or allocating.
---
 cpp/src/io/base_reader.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 29c4417..e46f4ff 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -35,6 +35,18 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
 {
     std::map<uint64_t, las::VlrHeader> out;
 
+    in_stream_->clear();
+    in_stream_->seekg(0, std::ios::end);
+    auto file_size = static_cast<uint64_t>(in_stream_->tellg());
+
+    // A record must lie within the file
+    auto check = [&](uint64_t cur_pos, const las::VlrHeader &h)
+    {
+        if (!in_stream_->good() || h.data_length > file_size ||
+            cur_pos + VlrHeaderSize(h) > file_size - h.data_length)
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR is not within the file.");
+    };
+
     // Move stream to beginning of VLRs
     in_stream_->seekg(reader_->header().header_size);
 
@@ -43,19 +55,22 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        check(cur_pos, h);
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
     }
 
     // Move stream to beginning of EVLRs
-    in_stream_->seekg(reader_->header().evlr_offset);
+    if (reader_->header().evlr_count > 0)
+        in_stream_->seekg(reader_->header().evlr_offset);
 
     // Iterate through all vlr's and add them to the `vlrs` list
     for (int i = 0; i < reader_->header().evlr_count; i++)
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        check(cur_pos, h);
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
-- 
2.43.0


From b39b133e5723f4d8df36ab7bebba452ed124b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/47] fix: reject a point record length below the size of the
 point format

The negative extra bytes size wrapped around, and decompressing overflowed its buffer.
---
 cpp/src/las/header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 459094e..099dba6 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -77,6 +77,8 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
         throw std::runtime_error("LasHeader::FromLazPerf: Supported point formats are 6 to 8.");
     h.point_format_id_ = static_cast<int8_t>(header.point_format_id);
     h.point_record_length_ = header.point_record_length;
+    if (h.point_record_length_ < PointBaseByteSize(h.point_format_id_))
+        throw std::runtime_error("LasHeader::FromLazPerf: Point record length is too small for the point format.");
     std::copy(std::begin(header.points_by_return), std::end(header.points_by_return), std::begin(h.points_by_return));
     h.scale_.x = header.scale.x;
     h.scale_.y = header.scale.y;
-- 
2.43.0


From 4762454942bf70f4551fa9e277dc769a34eb067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 26/47] fix: the points of a LazReader can be read more than
 once

---
 cpp/src/io/laz_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 6682656..047b9e5 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -5,6 +5,10 @@ namespace copc::laz
 std::vector<char> LazReader::GetPointData()
 {
     auto las_header = las_config_.LasHeader();
+    // Start over, since the points may have been read before
+    in_stream_->clear();
+    in_stream_->seekg(0);
+    reader_ = std::make_unique<lazperf::reader::generic_file>(*in_stream_);
     // Seek to the end of the chunk table offset/start of the points
     in_stream_->seekg(las_header.PointOffset() + sizeof(int64_t));
 
-- 
2.43.0


From d88eb8ae5a0c8af26a9056a68982723ba59aafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 27/47] fix: destroying readers and writers through their base
 classes is well defined

---
 cpp/include/copc-lib/io/base_reader.hpp     | 3 +++
 cpp/include/copc-lib/io/copc_base_io.hpp    | 2 ++
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 ++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 296ec4b..e76ee83 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -19,6 +19,9 @@ class BaseReader
 {
   public:
     BaseReader(std::istream *in_stream) : in_stream_(in_stream) { InitReader(); }
+    BaseReader(BaseReader &&) = default;
+    BaseReader &operator=(BaseReader &&) = default;
+    virtual ~BaseReader() = default;
 
   protected:
     BaseReader() = default;
diff --git a/cpp/include/copc-lib/io/copc_base_io.hpp b/cpp/include/copc-lib/io/copc_base_io.hpp
index bb9bf72..c520eec 100644
--- a/cpp/include/copc-lib/io/copc_base_io.hpp
+++ b/cpp/include/copc-lib/io/copc_base_io.hpp
@@ -22,6 +22,8 @@ struct CopcConfig;
 class BaseIO
 {
   public:
+    virtual ~BaseIO() = default;
+
     // Find a node object given a key
     Node FindNode(VoxelKey key);
 
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 68fadef..71a62a0 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,7 +41,7 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter()
+    virtual ~BaseWriter()
     {
         try
         {
@@ -69,6 +69,7 @@ class BaseFileWriter
 {
   public:
     BaseFileWriter(const std::string &file_path);
+    virtual ~BaseFileWriter() = default;
     virtual void Close();
 
   protected:
-- 
2.43.0


From df28c87c345c21bf3d76f7dd6d042ca9eb635a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 28/47] fix: GetParentAtDepth over 31 or more levels

---
 cpp/src/hierarchy/key.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 9c34bec..1b157d1 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -1,4 +1,6 @@
 #include "copc-lib/hierarchy/key.hpp"
+
+#include <algorithm>
 #include "copc-lib/las/header.hpp"
 
 namespace copc
@@ -55,8 +57,10 @@ VoxelKey VoxelKey::GetParentAtDepth(int32_t depth) const
     if (depth < 0 || depth > d)
         throw std::runtime_error("VoxelKey::GetParentAtDepth: Invalid depth requested.");
 
-    int reduction_factor = (int)std::pow(2, d - depth);
-    return {depth, x / reduction_factor, y / reduction_factor, z / reduction_factor};
+    // Shifting out all of the bits leaves 0
+    int64_t reduction_factor = int64_t{1} << std::min(d - depth, 31);
+    return {depth, static_cast<int32_t>(x / reduction_factor), static_cast<int32_t>(y / reduction_factor),
+            static_cast<int32_t>(z / reduction_factor)};
 }
 
 std::vector<VoxelKey> VoxelKey::GetParents(bool include_self) const
-- 
2.43.0


From 3024e05e7754b480e445ad8db22a16477c1dc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 29/47] fix: assigned and derived CopcExtents don't share
 entries with their source

---
 cpp/include/copc-lib/copc/extents.hpp |  3 +++
 cpp/src/copc/extents.cpp              | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index 4c7ba3e..45d94ba 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -59,6 +59,9 @@ class CopcExtents
     // Copy constructor
     CopcExtents(const CopcExtents &other);
 
+    // Copy assignment: like the copy constructor, doesn't share the extents
+    CopcExtents &operator=(const CopcExtents &other);
+
     // Copy constructor with updated protected attributes
     CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items, bool has_extended_stats);
 
diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index 8f1a46f..5cfb3b6 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -70,25 +70,34 @@ CopcExtents::CopcExtents(const CopcExtents &other)
         extents_.push_back(std::make_shared<CopcExtent>(other.Extents()[i]));
 }
 
+CopcExtents &CopcExtents::operator=(const CopcExtents &other)
+{
+    CopcExtents copy(other);
+    point_format_id_ = copy.point_format_id_;
+    has_extended_stats_ = copy.has_extended_stats_;
+    extents_.swap(copy.extents_);
+    return *this;
+}
+
 CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items,
                          bool has_extended_stats)
     : CopcExtents(point_format_id, num_eb_items, has_extended_stats)
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        *extents_[i] = *other.extents_[i];
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        *extents_[14] = *other.extents_[14];
+        *extents_[15] = *other.extents_[15];
+        *extents_[16] = *other.extents_[16];
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        *extents_[17] = *other.extents_[17];
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -99,8 +108,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            *extents_[PointBaseNumberExtents(point_format_id_) + i] =
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
     }
 }
 
-- 
2.43.0


From f699d67e563aa29110bc6304c78e5ff44c57c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 30/47] fix: copied and assigned configs don't share state with
 their source

---
 cpp/include/copc-lib/copc/copc_config.hpp |  4 ++++
 cpp/include/copc-lib/las/laz_config.hpp   |  4 ++++
 cpp/src/copc/copc_config.cpp              | 17 +++++++++++++++++
 cpp/src/las/laz_config.cpp                | 17 +++++++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..6b8bacb 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -30,6 +30,10 @@ class CopcConfig : public las::LazConfig
           copc_info_(std::make_shared<copc::CopcInfo>(copc_info)),
           copc_extents_(std::make_shared<copc::CopcExtents>(copc_extents)){};
 
+    // Copies don't share the info or the extents with their source
+    CopcConfig(const CopcConfig &other);
+    CopcConfig &operator=(const CopcConfig &other);
+
     virtual copc::CopcInfo CopcInfo() const { return *copc_info_; }
 
     virtual copc::CopcExtents CopcExtents() const { return *copc_extents_; }
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..e108382 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -26,6 +26,10 @@ class LazConfig
         eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
     }
 
+    // Copies don't share the header or the extra bytes with their source
+    LazConfig(const LazConfig &other);
+    LazConfig &operator=(const LazConfig &other);
+
     virtual las::LasHeader LasHeader() const { return *header_; }
 
     std::string Wkt() const { return wkt_; }
diff --git a/cpp/src/copc/copc_config.cpp b/cpp/src/copc/copc_config.cpp
index ae213b0..138765d 100644
--- a/cpp/src/copc/copc_config.cpp
+++ b/cpp/src/copc/copc_config.cpp
@@ -13,6 +13,23 @@ CopcConfig::CopcConfig(const int8_t &point_format_id, const Vector3 &scale, cons
         std::make_shared<copc::CopcExtents>(point_format_id, extra_bytes_vlr.items.size(), has_extended_stats);
 }
 
+CopcConfig::CopcConfig(const CopcConfig &other) : LazConfig(static_cast<const las::LazConfig &>(other))
+{
+    if (other.copc_info_)
+        copc_info_ = std::make_shared<copc::CopcInfo>(*other.copc_info_);
+    if (other.copc_extents_)
+        copc_extents_ = std::make_shared<copc::CopcExtents>(*other.copc_extents_);
+}
+
+CopcConfig &CopcConfig::operator=(const CopcConfig &other)
+{
+    CopcConfig copy(other);
+    LazConfig::operator=(copy);
+    copc_info_.swap(copy.copc_info_);
+    copc_extents_.swap(copy.copc_extents_);
+    return *this;
+}
+
 CopcConfigWriter::CopcConfigWriter(const int8_t &point_format_id, const Vector3 &scale, const Vector3 &offset,
                                    const std::string &wkt, const las::EbVlr &extra_bytes_vlr, bool has_extended_stats)
     : CopcConfig(point_format_id, scale, offset, wkt, extra_bytes_vlr, has_extended_stats)
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 8452046..23d2489 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -19,6 +19,23 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
+LazConfig::LazConfig(const LazConfig &other) : wkt_(other.wkt_)
+{
+    if (other.header_)
+        header_ = std::make_shared<las::LasHeader>(*other.header_);
+    if (other.eb_vlr_)
+        eb_vlr_ = std::make_shared<las::EbVlr>(*other.eb_vlr_);
+}
+
+LazConfig &LazConfig::operator=(const LazConfig &other)
+{
+    LazConfig copy(other);
+    header_.swap(copy.header_);
+    wkt_.swap(copy.wkt_);
+    eb_vlr_.swap(copy.eb_vlr_);
+    return *this;
+}
+
 // Copy constructor from CopcConfig
 LazConfig::LazConfig(const copc::CopcConfig &copc_config)
 {
-- 
2.43.0


From d0d5ef5514559bfe10ff49f476126e901dddb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 31/47] fix: looking up keys of any depth takes bounded memory

---
 .../copc-lib/hierarchy/internal/hierarchy.hpp | 24 ++++++++++----
 cpp/src/hierarchy/key.cpp                     |  9 ++---
 cpp/src/io/copc_base_io.cpp                   | 33 +++++++++----------
 cpp/src/io/copc_reader.cpp                    |  5 ++-
 4 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index d837b05..9b57132 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -36,15 +36,25 @@ class Hierarchy
             page.second->sub_pages.clear();
     }
 
-    // Find the lowest depth page that has been seen within a hierarchy list
-    std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
+    // Find the lowest depth page that has been seen among a key and its ancestors
+    std::shared_ptr<PageInternal> NearestLoadedPage(const VoxelKey &key)
     {
-        // Iterates through the list of key ancestors to find if any have been seen
-        for (auto &nearest_seen_parent : parents_list)
-            if (PageExists(nearest_seen_parent))
-                return seen_pages_[nearest_seen_parent];
+        std::shared_ptr<PageInternal> nearest_page;
+        if (key.IsValid() && static_cast<size_t>(key.d) > seen_pages_.size())
+        {
+            // A file or user can ask for keys of any depth, in which case there are fewer pages than ancestors
+            for (const auto &page : seen_pages_)
+                if ((nearest_page == nullptr || page.first.d > nearest_page->key.d) && key.ChildOf(page.first))
+                    nearest_page = page.second;
+            return nearest_page;
+        }
 
-        return nullptr;
+        // Iterates through the key's ancestors to find if any have been seen
+        for (auto parent = key; parent.IsValid() && nearest_page == nullptr; parent = parent.GetParent())
+            if (PageExists(parent))
+                nearest_page = seen_pages_[parent];
+
+        return nearest_page;
     }
 
     bool PageExists(VoxelKey key) { return seen_pages_.find(key) != seen_pages_.end(); }
diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 1b157d1..585321a 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -84,12 +84,9 @@ std::vector<VoxelKey> VoxelKey::GetParents(bool include_self) const
 
 bool VoxelKey::ChildOf(VoxelKey parent_key) const
 {
-    for (auto parent : GetParents(true))
-    {
-        if (parent == parent_key)
-            return true;
-    }
-    return false;
+    if (!IsValid() || !parent_key.IsValid() || parent_key.d > d)
+        return false;
+    return GetParentAtDepth(parent_key.d) == parent_key;
 }
 
 double VoxelKey::Resolution(const las::LasHeader &header, const CopcInfo &copc_info) const
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 10d694a..ed274bb 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -8,27 +8,24 @@ namespace copc
 // Find a node object given a key
 Node BaseIO::FindNode(VoxelKey key)
 {
-    // Check if the entry has already been loaded
-    if (hierarchy_->loaded_nodes_.find(key) != hierarchy_->loaded_nodes_.end())
+    // Not recursive, since the file decides how deep pages are nested
+    while (true)
     {
-        return *hierarchy_->loaded_nodes_[key];
-    }
-
-    // Get a list of the key's hierarchial parents, so we can see if any of them are loaded
-    auto parents_list = key.GetParents(true);
+        // Check if the entry has already been loaded
+        auto node = hierarchy_->loaded_nodes_.find(key);
+        if (node != hierarchy_->loaded_nodes_.end())
+            return *node->second;
 
-    // Find if of the key's ancestors have been seen
-    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(parents_list);
-    // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
-    // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
-    if (nearest_page == nullptr || nearest_page->loaded)
-        return {};
+        // Find if any of the key's ancestors have been seen
+        std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(key);
+        // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
+        // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
+        if (nearest_page == nullptr || nearest_page->loaded)
+            return {};
 
-    // Load the page and add the subpages and page nodes
-    ReadAndParsePage(nearest_page);
-
-    // Try to find the key again
-    return FindNode(key);
+        // Load the page and add the subpages and page nodes, then try to find the key again
+        ReadAndParsePage(nearest_page);
+    }
 }
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 0b50d0c..122dd5a 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -180,9 +180,8 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
     // Load all pages upto the current key
     auto node = FindNode(key);
     // The node may be in a page above the ones that lead to the page of that key, so load those too
-    auto parents_list = key.GetParents(true);
-    for (auto page = hierarchy_->NearestLoadedPage(parents_list); page != nullptr && !page->loaded;
-         page = hierarchy_->NearestLoadedPage(parents_list))
+    for (auto page = hierarchy_->NearestLoadedPage(key); page != nullptr && !page->loaded;
+         page = hierarchy_->NearestLoadedPage(key))
         ReadAndParsePage(page);
 
     // If a page with this key doesn't exist, check if the node itself exists and return it
-- 
2.43.0


From 77d1e8147711fa66ce777d91394e6e6f70279cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 32/47] fix: children of a voxel key that do not fit its
 integers are refused

---
 cpp/src/hierarchy/key.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 585321a..96d4ed8 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -1,6 +1,8 @@
 #include "copc-lib/hierarchy/key.hpp"
 
 #include <algorithm>
+#include <limits>
+#include <stdexcept>
 #include "copc-lib/las/header.hpp"
 
 namespace copc
@@ -15,6 +17,11 @@ std::string VoxelKey::ToString() const
 
 VoxelKey VoxelKey::Bisect(const uint64_t &direction) const
 {
+    constexpr int32_t max = std::numeric_limits<int32_t>::max();
+    for (auto value : {x, y, z})
+        if (d == max || value > max / 2 || value < -(max / 2))
+            throw std::runtime_error("VoxelKey::Bisect: The children of this key can't be represented.");
+
     VoxelKey key(*this);
     ++key.d;
 
-- 
2.43.0


From 9a7c84a641a2939c20c53d007459330c356bc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 33/47] fix: file readers release their stream when opening it
 runs out of memory

---
 cpp/include/copc-lib/io/copc_reader.hpp | 5 ++---
 cpp/include/copc-lib/io/laz_reader.hpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 056dc03..3108c38 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -84,15 +84,14 @@ class Reader : public BaseIO, public BaseReader
 class FileReader : public Reader
 {
   public:
-    FileReader(const std::string &file_path) : is_open_(true)
+    FileReader(const std::string &file_path) : is_open_(true), file_path_(file_path)
     {
         auto f_stream = new std::fstream;
-        this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         in_stream_ = f_stream;
 
         try
         {
+            f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
             if (!f_stream->good())
                 throw std::runtime_error("FileReader: Error while opening file path.");
 
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index 1d8885c..36152ac 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -23,15 +23,14 @@ class LazReader : public BaseReader
 class LazFileReader : public LazReader
 {
   public:
-    LazFileReader(const std::string &file_path) : is_open_(true)
+    LazFileReader(const std::string &file_path) : is_open_(true), file_path_(file_path)
     {
         auto f_stream = new std::fstream;
-        this->file_path_ = file_path;
-        f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         in_stream_ = f_stream;
 
         try
         {
+            f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
             if (!f_stream->good())
                 throw std::runtime_error("LazFileReader: Error while opening file path.");
 
-- 
2.43.0


From 43346fd428286a8726e29e0cf3b7146a89f87708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 34/47] fix: default constructed configs can be used

---
 cpp/include/copc-lib/copc/copc_config.hpp | 2 +-
 cpp/include/copc-lib/las/laz_config.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 6b8bacb..57e9ab0 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -17,7 +17,7 @@ namespace copc
 class CopcConfig : public las::LazConfig
 {
   public:
-    CopcConfig() = default;
+    CopcConfig() : CopcConfig(las::LazConfig(), copc::CopcInfo(), copc::CopcExtents(6)) {}
 
     CopcConfig(const las::LasHeader &header, const CopcInfo &copc_info, const CopcExtents &copc_extents,
                const std::string &wkt, const las::EbVlr &extra_bytes_vlr)
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index e108382..d49c46a 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -19,7 +19,7 @@ class LazConfigWriter;
 class LazConfig
 {
   public:
-    LazConfig() = default;
+    LazConfig() : LazConfig(las::LasHeader(), "", las::EbVlr(0)) {}
     LazConfig(const las::LasHeader &header, std::string wkt, const las::EbVlr &extra_bytes_vlr) : wkt_(std::move(wkt))
     {
         header_ = std::make_shared<las::LasHeader>(header);
-- 
2.43.0


From 7f28197242b960409b6d9d11e9166c682230ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 35/47] fix: a node whose page could not be created is not left
 behind in the writer

---
 cpp/src/io/copc_writer_public.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 7813c53..6ef9eeb 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -86,7 +86,6 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     e.key = key;
 
     auto node = std::make_shared<Node>(e, page_key);
-    hierarchy_->loaded_nodes_[key] = node;
     // If page doesn't exist then create it
     if (!PageExists(page_key))
     {
@@ -96,6 +95,8 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     }
     // Add node to page
     hierarchy_->seen_pages_[page_key]->nodes[node->key] = node;
+    // Last, so that every known node is in an existing page even if one of the steps above fails
+    hierarchy_->loaded_nodes_[key] = node;
     return *node;
 }
 
-- 
2.43.0


From fdf4b19e574e41d8a3a46834d91bc32ce6dbc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 36/47] fix: a page that could not be loaded completely is not
 used by later queries

---
 cpp/src/io/copc_base_io.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index ed274bb..c37f9cb 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -53,20 +53,35 @@ void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &pa
 void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page)
 {
     auto children = ReadPage(page);
-    for (const Entry &e : children)
+    try
     {
-        if (e.IsPage())
+        for (const Entry &e : children)
         {
-            auto subpage = std::make_shared<Internal::PageInternal>(e);
-            hierarchy_->seen_pages_[e.key] = subpage;
-            page->sub_pages.insert(subpage);
-        }
-        else
-        {
-            auto node = std::make_shared<Node>(e, page->key);
-            hierarchy_->loaded_nodes_[e.key] = node;
-            page->nodes[node->key] = node;
+            if (e.IsPage())
+            {
+                auto subpage = std::make_shared<Internal::PageInternal>(e);
+                page->sub_pages.insert(subpage);
+                hierarchy_->seen_pages_[e.key] = subpage;
+            }
+            else
+            {
+                auto node = std::make_shared<Node>(e, page->key);
+                page->nodes[node->key] = node;
+                hierarchy_->loaded_nodes_[e.key] = node;
+            }
         }
     }
+    catch (...)
+    {
+        // Forget the part of the page that was loaded, so that later queries don't take it for the whole page
+        for (const auto &subpage : page->sub_pages)
+            hierarchy_->seen_pages_.erase(subpage->key);
+        for (const auto &node : page->nodes)
+            hierarchy_->loaded_nodes_.erase(node.first);
+        page->sub_pages.clear();
+        page->nodes.clear();
+        page->loaded = false;
+        throw;
+    }
 }
 } // namespace copc
-- 
2.43.0


From b730c86a1bfc06b94e1ad087696eb59d94bbeea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 37/47] fix: validating spatial bounds leaves the format of
 std::cout alone, which other threads use

---
 cpp/src/io/copc_reader.cpp | 61 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 122dd5a..8231f8a 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <iomanip>
 #include <iostream>
+#include <sstream>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -349,18 +350,27 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     int total_points_outside_header_bounds{0};
     int total_points_outside_node_bounds{0};
 
-    // If verbose, set precision and print the las header.
+    // Formatted apart from std::cout, which belongs to all threads
+    std::ostringstream text;
+    text << std::setprecision(std::numeric_limits<double>::max_digits10);
+    auto print = [&text]()
+    {
+        std::cout << text.str() << std::flush;
+        text.str("");
+    };
+
+    // If verbose, print the las header.
     if (verbose)
     {
-        std::cout << std::setprecision(std::numeric_limits<double>::max_digits10);
-        std::cout << "Validating Spatial Bounds" << std::endl;
-        std::cout << "File info:" << std::endl;
-        std::cout << "\tPoint Count: " << header.PointCount() << std::endl;
-        std::cout << "\tScale: " << header.Scale() << std::endl;
-        std::cout << "\tOffset: " << header.Offset() << std::endl;
-        std::cout << "\tMin Bounds: " << header.min << std::endl;
-        std::cout << "\tMax Bounds: " << header.max << std::endl;
-        std::cout << std::endl << "Validating bounds..." << std::endl << std::endl;
+        text << "Validating Spatial Bounds" << std::endl;
+        text << "File info:" << std::endl;
+        text << "\tPoint Count: " << header.PointCount() << std::endl;
+        text << "\tScale: " << header.Scale() << std::endl;
+        text << "\tOffset: " << header.Offset() << std::endl;
+        text << "\tMin Bounds: " << header.min << std::endl;
+        text << "\tMax Bounds: " << header.max << std::endl;
+        text << std::endl << "Validating bounds..." << std::endl << std::endl;
+        print();
     }
 
     for (const auto &node : GetAllNodes())
@@ -372,8 +382,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
             is_valid = false;
             if (!verbose)
                 return false;
-            std::cout << "Node " << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                      << std::endl;
+            text << "Node " << node.key << " is outside of las header bounds (" << header.Bounds() << ")." << std::endl;
+            print();
             total_points_outside_header_bounds += node.point_count;
         }
         else
@@ -389,9 +399,10 @@ bool Reader::ValidateSpatialBounds(bool verbose)
                         is_valid = false;
                         if (!verbose)
                             return false;
-                        std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
-                                  << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                                  << std::endl;
+                        text << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
+                             << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
+                             << std::endl;
+                        print();
                         total_points_outside_header_bounds++;
                     }
                 }
@@ -405,8 +416,9 @@ bool Reader::ValidateSpatialBounds(bool verbose)
                     is_valid = false;
                     if (!verbose)
                         return false;
-                    std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
-                              << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
+                    text << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
+                         << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
+                    print();
                     total_points_outside_node_bounds++;
                 }
             }
@@ -415,13 +427,14 @@ bool Reader::ValidateSpatialBounds(bool verbose)
 
     if (verbose)
     {
-        std::cout << std::endl;
-        std::cout << "...Bounds validation done." << std::endl << std::endl;
-        std::cout << "Number of points outside header bounds: " << total_points_outside_header_bounds << std::endl;
-        std::cout << "Number of points outside node bounds: " << total_points_outside_node_bounds << std::endl;
-        std::cout << std::endl;
-        is_valid ? std::cout << "Spatial bounds are valid!" : std::cout << "Spatial bounds are invalid!";
-        std::cout << std::endl;
+        text << std::endl;
+        text << "...Bounds validation done." << std::endl << std::endl;
+        text << "Number of points outside header bounds: " << total_points_outside_header_bounds << std::endl;
+        text << "Number of points outside node bounds: " << total_points_outside_node_bounds << std::endl;
+        text << std::endl;
+        is_valid ? text << "Spatial bounds are valid!" : text << "Spatial bounds are invalid!";
+        text << std::endl;
+        print();
     }
     return is_valid;
 }
-- 
2.43.0


From 2c7972787757a30683d4d9f5be7b6bf93383fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 38/47] fix: a header whose texts are not UTF-8 can be pickled

---
 python/bindings.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 8d60588..4112472 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,10 +506,12 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
-                                      h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
-                                      h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
+                // The character fields may hold any bytes, so they are not necessarily valid UTF-8
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()),
+                                      h.creation_day, h.creation_year, h.PointOffset(), h.VlrCount(),
+                                      h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(), h.max,
+                                      h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
                                       h.IsCopc());
             },
             [](const py::tuple &t) { // __setstate__
-- 
2.43.0


From c03ee39639c590bf6e83e5ef86a75017823f17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 39/47] fix: an empty slice of points is empty points

---
 python/bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 4112472..c5c0505 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -360,7 +360,9 @@ PYBIND11_MODULE(_core, m)
                      start += step;
                  }
 
-                 auto *seq = new las::Points(new_points);
+                 // The slice may be empty
+                 auto *seq = new las::Points(s.PointFormatId(), s.EbByteSize());
+                 seq->AddPoints(new_points);
                  return seq;
              })
         .def("__setitem__",
-- 
2.43.0


From f74b6fe9573029ce1ecea7a8f468d5bb315b5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 40/47] fix: a point of another format or size cannot be
 assigned into points

---
 python/bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index c5c0505..9cfc52f 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -335,6 +335,8 @@ PYBIND11_MODULE(_core, m)
         .def("__setitem__",
              [wrap_i](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
                  i = wrap_i(i, s.Size());
+                 if (!v || v->PointFormatId() != s.PointFormatId() || v->PointRecordLength() != s.PointRecordLength())
+                     throw std::runtime_error("New point must be of same format and byte_size.");
                  s[(SizeType)i] = std::move(v);
              })
         .def("__len__", &las::Points::Size)
@@ -373,6 +375,8 @@ PYBIND11_MODULE(_core, m)
 
                  if (slicelength != value.Size())
                      throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
+                 if (value.PointFormatId() != s.PointFormatId() || value.PointRecordLength() != s.PointRecordLength())
+                     throw std::runtime_error("New points must be of same format and byte_size.");
 
                  for (size_t i = 0; i < slicelength; ++i)
                  {
-- 
2.43.0


From d806e01e3ac325db6f5ee045ba8d5f3910faf9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 41/47] fix: adding no point (None in Python) to points is
 refused instead of dereferenced

---
 cpp/src/las/points.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 57e34b1..b65a1f1 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -21,6 +21,8 @@ Points::Points(const std::vector<std::shared_ptr<Point>> &points)
 {
     if (points.empty())
         throw std::runtime_error("Can't add empty vector of points to Points!");
+    if (!points[0])
+        throw std::runtime_error("Can't add a null point to Points!");
 
     point_record_length_ = points[0]->PointRecordLength();
     point_format_id_ = points[0]->PointFormatId();
@@ -41,6 +43,8 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
 {
+    if (!point)
+        throw std::runtime_error("Can't add a null point to Points!");
     if (point->PointFormatId() == point_format_id_ && point->PointRecordLength() == point_record_length_)
         points_.push_back(point);
     else
@@ -60,6 +64,8 @@ void Points::AddPoints(std::vector<std::shared_ptr<Point>> points)
 {
     for (const auto &point : points)
     {
+        if (!point)
+            throw std::runtime_error("Can't add a null point to Points!");
         if (point->PointFormatId() != point_format_id_ || point->PointRecordLength() != point_record_length_)
             throw std::runtime_error("New points must be of same format and byte_size.");
     }
-- 
2.43.0


From c64f306df02245f22af0310154bda548a058e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 42/47] fix: transform_multithreaded refuses points of another
 format than the writer's

---
 python/copclib/mp/transform.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index cc2a00b..13dd6d0 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -209,6 +209,15 @@ def _transform_node(
         points = ret
         return_vals = {}
 
+    # Packing doesn't look at the format, so points of another format would corrupt the output
+    if len(points) > 0 and (
+        points.point_format_id != writer_header.point_format_id
+        or points.point_record_length != writer_header.point_record_length
+    ):
+        raise RuntimeError(
+            "The transform_function must return points of the writer's point format and record length!"
+        )
+
     # compute the minimum and maximum of the node's points, if necessary
     xyz_min = None
     xyz_max = None
-- 
2.43.0


From 9466e86127ce4a6016ea4e813d0ad899ce5861f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 43/47] fix: transform_multithreaded updates the bounds from
 the coordinates it writes

---
 python/copclib/mp/transform.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index 13dd6d0..8f71c08 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -218,14 +218,18 @@ def _transform_node(
             "The transform_function must return points of the writer's point format and record length!"
         )
 
+    point_count = len(points)
+    # Repack the points using the new writer header
+    packed_points = points.Pack(writer_header)
+
     # compute the minimum and maximum of the node's points, if necessary
     xyz_min = None
     xyz_max = None
-    if update_minmax and len(points) > 0:
+    if update_minmax and point_count > 0:
+        # packing rounds the coordinates, so compute from what will be read back
+        points = copc.Points.Unpack(packed_points, writer_header)
         xyz_min = [min(points.x), min(points.y), min(points.z)]
         xyz_max = [max(points.x), max(points.y), max(points.z)]
 
-    point_count = len(points)
-    # Repack and compress the points using the new writer header
-    compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
+    compressed_points = copc.CompressBytes(packed_points, writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 1852a79fb3e526404d765aa17f3507ac330e24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 44/47] fix: a compressed chunk that is too large is refused
 before it is written

---
 cpp/src/io/laz_base_writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 3724f0b..63cbbba 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -114,6 +114,8 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 {
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed!");
+    if (compressed && in.size() > static_cast<size_t>((std::numeric_limits<int32_t>::max)()))
+        throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
 
     int64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
-- 
2.43.0


From cdbc9f25ffff508d0edaec41c5bc5c82a065cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 45/47] fix: the number of points outside of the bounds is
 counted in 64 bits

---
 cpp/src/io/copc_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 8231f8a..39265b5 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -347,8 +347,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     bool is_valid = true;
     auto header = config_.LasHeader();
 
-    int total_points_outside_header_bounds{0};
-    int total_points_outside_node_bounds{0};
+    uint64_t total_points_outside_header_bounds{0};
+    uint64_t total_points_outside_node_bounds{0};
 
     // Formatted apart from std::cout, which belongs to all threads
     std::ostringstream text;
-- 
2.43.0


From e05b0613296869697c12c6494acf83eacbc7dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:34 +0000
Subject: [PATCH 46/47] fix: extra bytes that do not fit in a point record or a
 VLR are refused

---
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 +++
 cpp/src/io/copc_writer_public.cpp           | 4 ++--
 cpp/src/las/laz_config.cpp                  | 4 ++--
 cpp/src/las/point.cpp                       | 2 +-
 cpp/src/las/utils.cpp                       | 7 ++++++-
 cpp/src/las/vlr.cpp                         | 3 +++
 6 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 71a62a0..ba498a5 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
@@ -26,6 +27,8 @@ class BaseWriter
     BaseWriter(std::ostream &out_stream, std::shared_ptr<las::LazConfig> laz_config)
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
+        if (config_->ExtraBytesVlr().size() > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("BaseWriter: Too many extra bytes fields for a VLR.");
     }
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 6ef9eeb..63e5321 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -42,8 +42,8 @@ void Writer::InitWriter(std::ostream &out_stream, const CopcConfigWriter &copc_c
             new_has_extended_stats = *has_extended_stats;
 
         las::LasHeader new_header(copc_config_writer.LasHeader(), new_point_format_id,
-                                  las::PointBaseByteSize(new_point_format_id) +
-                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),
+                                  las::PointByteSize(new_point_format_id,
+                                                     las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items)),
                                   new_scale, new_offset);
 
         copc::CopcExtents new_extents(copc_config_writer.CopcExtents(), new_point_format_id,
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 23d2489..058151a 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -14,8 +14,8 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("LasConfig: Supported point formats are 6 to 8.");
     header_ = std::make_shared<las::LasHeader>(
-        point_format_id, las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items),
-        scale, offset, copc_flag);
+        point_format_id, las::PointByteSize(point_format_id, las::NumBytesFromExtraBytes(extra_bytes_vlr.items)), scale,
+        offset, copc_flag);
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
diff --git a/cpp/src/las/point.cpp b/cpp/src/las/point.cpp
index bb78b47..bc47cd4 100644
--- a/cpp/src/las/point.cpp
+++ b/cpp/src/las/point.cpp
@@ -8,7 +8,7 @@ Point::Point(const int8_t &point_format_id, const uint16_t &eb_byte_size) : poin
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point: Point format must be 6-8");
 
-    point_record_length_ = PointBaseByteSize(point_format_id) + eb_byte_size;
+    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
 
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index 5e59d0a..75da23c 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -1,5 +1,7 @@
 #include "copc-lib/las/utils.hpp"
 
+#include <limits>
+
 namespace copc::las
 {
 
@@ -68,7 +70,10 @@ uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
 {
-    return PointBaseByteSize(point_format_id) + eb_byte_size;
+    auto size = PointBaseByteSize(point_format_id) + eb_byte_size;
+    if (size > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("PointByteSize: Too many extra bytes for a point record.");
+    return static_cast<uint16_t>(size);
 }
 
 } // namespace copc::las
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index 0342c0c..a1b8c8a 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -2,6 +2,7 @@
 #include "copc-lib/las/utils.hpp"
 
 #include <iterator>
+#include <limits>
 
 namespace copc::las
 {
@@ -21,6 +22,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
         else
             throw std::runtime_error("NumBytesFromExtraBytes: Invalid extra bytes data type.");
     }
+    if (out > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("NumBytesFromExtraBytes: Too many extra bytes.");
     return out;
 }
 
-- 
2.43.0


From 92882b4d0e516702efbfbf5f2a581a445ad8e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:25 +0000
Subject: [PATCH 47/47] fix: a conversion to a format whose records would be
 too long is refused

---
 cpp/src/las/point.cpp  | 2 +-
 cpp/src/las/points.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/point.cpp b/cpp/src/las/point.cpp
index bc47cd4..eff1b67 100644
--- a/cpp/src/las/point.cpp
+++ b/cpp/src/las/point.cpp
@@ -143,10 +143,10 @@ void Point::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    point_record_length_ = PointByteSize(point_format_id, EbByteSize());
     // Update flags
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
-    point_record_length_ = PointBaseByteSize(point_format_id) + extra_bytes_.size();
     point_format_id_ = point_format_id;
 }
 
diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index b65a1f1..1d25f6f 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -34,11 +34,11 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    auto point_record_length = PointByteSize(point_format_id, EbByteSize());
     for (auto &point : points_)
         point->ToPointFormat(point_format_id);
-    unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);
     point_format_id_ = point_format_id;
-    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
+    point_record_length_ = point_record_length;
 }
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
-- 
2.43.0

