From 5329494716da8ae9b6ae17e5c0a505abaf7e1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 01/71] fix: a NaN amongst otherwise constant values must not
 select the constant codec

---
 src/odc/core/Codec.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..008fa43 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -10,6 +10,8 @@
 
 #include "odc/core/Codec.h"
 
+#include <cmath>
+
 #include "eckit/exception/Exceptions.h"
 
 #include "odc/core/CodecFactory.h"
@@ -101,6 +103,11 @@ void Codec::gatherStats(const double& v) {
     if (v == missingValue_) {
         hasMissing_ = 1;
     }
+    else if (std::isnan(v)) {
+        // NaN is unordered, so does not contribute to the range. But a column containing NaN is never constant.
+        if (min_ == max_)
+            min_ = max_ = v;
+    }
     else {
         if (v < min_ || min_ == missingValue_)
             min_ = v;
-- 
2.43.0


From bee53163baea698393540779187ac49469650d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 02/71] fix: detect the real internal missing value of
 short_real2 (-FLT_MAX) when choosing the codec of REAL columns

---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/codec/Real.h           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..e25d404 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    // If both internal missing values are present in the data, neither of the short codecs is usable
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..5e66178 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -62,10 +62,11 @@ private:  // methods
         core::Codec::gatherStats(v);
 
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        float f                    = static_cast<float>(v);
+        if (f == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (f == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
     }
 
-- 
2.43.0


From b9464eb0148782afc5037c20dfe8ee4d9bce3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 03/71] fix: an empty long_constant_string has a decoded size
 of one double

---
 src/odc/codec/Constant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..3c9fd8e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -194,7 +194,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
-- 
2.43.0


From 35392bdd04f5be3d59f4b85cb93b11e30aeb9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 04/71] fix: refuse to encode integers which do not fit in 32
 bits rather than silently truncating them

---
 src/odc/codec/Integer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..93af712 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -136,6 +136,9 @@ private:  // methods
         static_assert(sizeof(ValueType) == sizeof(d), "unsafe casting check");
 
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
+        if (val < std::numeric_limits<InternalValueType>::min() || val > std::numeric_limits<InternalValueType>::max()) {
+            throw eckit::OutOfRange("Integer value is out of the range supported by codec " + this->name_, Here());
+        }
         InternalValueType s = val;
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
-- 
2.43.0


From 96bd1b075b060270ec750f698b9b0e4272d96edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 05/71] fix: refuse column-major arrays whose column width does
 not divide the size of a column

---
 src/odc/api/odc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..4837e28 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -822,7 +822,7 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
             }
         }
 
-        ASSERT(columnMajorWidth % 8 == 0);
+        ASSERT(columnMajorWidth >= 0 && columnMajorWidth % 8 == 0);
         encoder->arrayData        = data;
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
@@ -932,6 +932,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
+                    ASSERT(info.decodedSize % encoder->columnMajorWidth == 0);
                     size_t widthInElems = info.decodedSize / encoder->columnMajorWidth;
 
                     transposedData.push_back(std::unique_ptr<char[]>(
-- 
2.43.0


From f88a1ca9612a98c910ef41b065ff949fb60160a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 06/71] fix: odc_encode_to_file_descriptor reports the number
 of bytes encoded, not the position of the descriptor

---
 src/odc/api/odc.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 4837e28..6cb3683 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1043,8 +1043,24 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
 }
 
 int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_encoded) {
+
+    // Count the bytes encoded, as the position of the file descriptor depends on what has been written before
+    // (and is not defined at all for pipes and sockets)
+    struct CountingFileDescHandle : public FileDescHandle {
+        CountingFileDescHandle(int fd) : FileDescHandle(fd), pos_(0) {}
+        long write(const void* buffer, long length) override {
+            long written = FileDescHandle::write(buffer, length);
+            if (written > 0)
+                pos_ += written;
+            return written;
+        }
+        Offset position() override { return pos_; }
+
+        Offset pos_;
+    };
+
     return wrapApiFunction([encoder, fd, bytes_encoded] {
-        FileDescHandle dh(fd);
+        CountingFileDescHandle dh(fd);
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-- 
2.43.0


From afd1cf6901f9c975c3a34fc44eabfd361721fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 07/71] fix: refuse decode targets narrower than the decoded
 values, and define every byte of wider ones

---
 src/odc/core/Table.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..e469c12 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -11,6 +11,7 @@
 #include "odc/core/Table.h"
 
 #include <bitset>
+#include <cstring>
 #include <functional>
 
 #include "eckit/io/AutoCloser.h"
@@ -131,6 +132,7 @@ void Table::decode(DecodeTarget& target) {
     std::vector<char> visitColumn(ncols, false);
     std::vector<api::StridedData*> facades(ncols,
                                            0);  // TODO: Do we want to do a copy, rather than point to StridedData*?
+    std::vector<size_t> decodedSizes(ncols, 0);
 
     ASSERT(target.columns().size() == target.dataFacades().size());
     ASSERT(target.columns().size() <= ncols);
@@ -154,9 +156,17 @@ void Table::decode(DecodeTarget& target) {
             throw ODBDecodeError(ss.str(), Here());
         }
 
-        visitColumn[pos] = true;
-        facades[pos]     = &target.dataFacades()[i];
+        visitColumn[pos]  = true;
+        facades[pos]      = &target.dataFacades()[i];
+        decodedSizes[pos] = metadata[pos]->dataSizeDoubles() * sizeof(double);
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+
+        if (facades[pos]->dataSize() < decodedSizes[pos]) {
+            std::stringstream ss;
+            ss << "Column '" << nm << "' requires " << decodedSizes[pos] << " bytes per element, but only "
+               << facades[pos]->dataSize() << " are available in the decode target";
+            throw ODBDecodeError(ss.str(), Here());
+        }
     }
 
     // Read the data in in bulk for this table
@@ -210,7 +220,12 @@ void Table::decode(DecodeTarget& target) {
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
-                decoders[col].get().decode(reinterpret_cast<double*>((*facades[col])[rowCount]));
+                char* element = (*facades[col])[rowCount];
+                decoders[col].get().decode(reinterpret_cast<double*>(element));
+                // Target elements can be wider than the values in this table (e.g. strings)
+                if (facades[col]->dataSize() > decodedSizes[col]) {
+                    ::memset(element + decodedSizes[col], 0, facades[col]->dataSize() - decodedSizes[col]);
+                }
                 lastDecoded[col] = rowCount;
             }
             else {
-- 
2.43.0


From cef9b942a84f280e7eb9eb1268cd5f91c7a3e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 08/71] fix: lay out the memory of C API decoders consistently

The width of the data did not include columns whose size was specified explicitly (heap overflow), columns with
caller supplied memory were given space they don't use but not always a stride, and the layout of a decoder
was never recomputed when it was reconfigured and used again (stale pointers, overflow).
---
 src/odc/api/odc.cc | 80 ++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 6cb3683..e3a9243 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -12,6 +12,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
 #include <numeric>
 
 #include "eckit/exception/Exceptions.h"
@@ -51,9 +52,11 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool userData;  // is the memory supplied specifically for this column?
     };
 
-    odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
+    odc_decoder_t() :
+        nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedSize(0), ownedData() {}
 
     size_t nrows;
     std::vector<std::string> columnNames;
@@ -64,6 +67,8 @@ struct odc_decoder_t {
     void* externalData;
     bool columnMajor;
 
+    size_t ownedSize;
+
     // n.b. not std::vector. Don't force 0-initialising array.
     std::unique_ptr<char[]> ownedData;
 };
@@ -554,12 +559,12 @@ int odc_decoder_data_array(const odc_decoder_t* decoder, const void** data, long
         ASSERT(decoder);
 
         if (data) {
-            if (decoder->ownedData) {
-                (*data) = decoder->ownedData.get();
+            if (decoder->externalData) {
+                (*data) = decoder->externalData;
             }
             else {
-                ASSERT(decoder->externalData);
-                (*data) = decoder->externalData;
+                ASSERT(decoder->ownedData);
+                (*data) = decoder->ownedData.get();
             }
         }
 
@@ -577,7 +582,7 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
         ASSERT(decoder);
         ASSERT(name);
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false});
     });
 }
 
@@ -594,6 +599,8 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
     });
@@ -604,10 +611,14 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(decoder);
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
+        ASSERT(element_size >= 0);
+
         auto& cd(decoder->columnData[col]);
-        cd.elemSize = element_size;
-        cd.stride   = stride;
-        cd.data     = data;
+        cd.elemSize  = element_size;
+        cd.stride    = stride;
+        cd.data      = data;
+        cd.transpose = false;
+        cd.userData  = (data != nullptr);
     });
 }
 
@@ -634,41 +645,60 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
     }
 
     size_t height = decoder->nrows;  // in rows
-    size_t width  = 0;               // in bytes
-    std::vector<std::pair<size_t, long>> offsets;
+    size_t width  = 0;               // in bytes, of the columns for which no memory has been supplied
 
     for (size_t i = 0; i < decoder->columnData.size(); ++i) {
         odc_decoder_t::DecodeColumn& col(decoder->columnData[i]);
 
         if (col.elemSize == 0) {
-            if (col.data) {
+            if (col.userData) {
                 col.elemSize = sizeof(double);  // backwards compatible default
             }
             else {
                 const std::string& colName(decoder->columnNames[i]);
-                auto it = std::find_if(frame->frame_.columnInfo().begin(), frame->frame_.columnInfo().end(),
+                const auto& columnInfo(frame->frame_.columnInfo());
+                auto it = std::find_if(columnInfo.begin(), columnInfo.end(),
                                        [&colName](const ColumnInfo& ci) { return ci.name == colName; });
-                ASSERT(it != frame->frame_.columnInfo().end());
+                if (it == columnInfo.end()) {
+                    it = std::find_if(columnInfo.begin(), columnInfo.end(), [&colName](const ColumnInfo& ci) {
+                        return ci.name.substr(0, ci.name.find('@')) == colName;
+                    });
+                }
+                ASSERT(it != columnInfo.end());
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
             }
+        }
+
+        if (col.userData) {
+            if (col.stride == 0)
+                col.stride = col.elemSize;
+        }
+        else {
             width += col.elemSize;
         }
     }
 
     if (width != 0 && height != 0) {
-        void* dataPtr;
+        char* dataPtr;
         if (decoder->externalData) {
             decoder->ownedData.reset();
-            dataPtr = decoder->externalData;
+            decoder->ownedSize = 0;
+            dataPtr            = static_cast<char*>(decoder->externalData);
             ASSERT(width <= decoder->dataWidth);
             ASSERT(height <= decoder->dataHeight);
             width  = decoder->dataWidth;
             height = decoder->dataHeight;
         }
         else {
-            decoder->ownedData.reset(new char[width * height]);
+            // n.b. If the decoder is being reused, keep the existing memory if it is large enough
+            ASSERT(width <= std::numeric_limits<size_t>::max() / height);
+            if (!decoder->ownedData || decoder->ownedSize < width * height) {
+                decoder->ownedSize = 0;
+                decoder->ownedData.reset(new char[width * height]);
+                decoder->ownedSize = width * height;
+            }
             decoder->dataWidth  = width;
             decoder->dataHeight = height;
             dataPtr             = decoder->ownedData.get();
@@ -676,23 +706,19 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
 
         size_t offset = 0;
         for (auto& col : decoder->columnData) {
-            if (!col.data) {
-                col.data = static_cast<char*>(dataPtr) + offset;
+            if (!col.userData) {
+                col.data = dataPtr + offset;
                 if (decoder->columnMajor) {
                     col.stride = col.elemSize;
                     offset += height * col.elemSize;
-                    if (col.elemSize > 8)
-                        col.transpose = true;
+                    col.transpose = (col.elemSize > 8);
                 }
                 else {
                     col.stride = width;
                     offset += col.elemSize;
+                    col.transpose = false;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
@@ -710,11 +736,11 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
 
         ASSERT(decoder->columnData.size() == decoder->columnNames.size());
         ASSERT(decoder->columnNames.size() <= frame_cols);
-        ASSERT(decoder->nrows >= frame_rows);
 
         // Fill in and allocate decode target as required
 
         fill_in_decoder(decoder, frame);
+        ASSERT(decoder->nrows >= frame_rows);
 
         // Store of column index/temporary data for column-major columns wider than 8-bytes that
         // need to be transposed (i.e. part of an output array).
@@ -753,7 +779,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 290bbc996428d4ea62a99abc3a6abbf71fc9fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 09/71] fix: Table::readEncodedData reports data which could
 not be read completely

---
 src/odc/core/Table.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index e469c12..a653ec3 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -73,18 +73,17 @@ const Properties& Table::properties() const {
 
 Buffer Table::readEncodedData(bool includeHeader) {
 
-    if (includeHeader) {
-        Buffer data(nextPosition() - startPosition());
-        dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
-        return data;
-    }
-    else {
-        Buffer data(dataSize_);
-        dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
-        return data;
+    const Offset position = includeHeader ? startPosition() : dataPosition_;
+    const long length     = includeHeader ? long(nextPosition() - startPosition()) : long(dataSize_);
+
+    Buffer data(length);
+    dh_.seek(position);
+
+    // n.b. Some DataHandles cannot tell how much data is available, so truncation is only detected here
+    if (dh_.read(data, length) != length) {
+        throw ODBIncomplete(dh_.title(), Here());
     }
+    return data;
 }
 
 const std::map<std::string, size_t>& Table::columnLookup() {
-- 
2.43.0


From 1228a63267ce71f5c40d800fae3e8fb36bd2380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 10/71] fix: odc_open_stream implements position() and forward
 seek(), which reading requires, and tolerates short reads

---
 src/odc/api/odc.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index e3a9243..f7e6d6f 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -304,12 +304,38 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            // As with POSIX read(), fewer bytes than requested may be returned before the end of the stream
+            long total = 0;
+            while (total < length) {
+                long nread = fn_(handle_, static_cast<char*>(buffer) + total, length - total);
+                if (nread < 0 || nread > length - total)
+                    throw ReadError("Read from stream handler failed", Here());
+                if (nread == 0)
+                    break;
+                total += nread;
+                position_ += nread;
+            }
+            return total;
+        }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
+        Offset position() override { return position_; }
+        Offset seek(const Offset& offset) override {
+            // A stream only goes forwards
+            if (offset < position_)
+                throw ReadError("Cannot seek backwards in a stream", Here());
+            std::vector<char> skipped(std::min<size_t>(offset - position_, 64 * 1024));
+            while (position_ < offset) {
+                if (read(skipped.data(), std::min<size_t>(offset - position_, skipped.size())) == 0)
+                    throw ShortFile("Stream ended before the end of the ODB data", Here());
+            }
+            return position_;
+        }
 
         void* handle_;
         odc_stream_read_t fn_;
+        Offset position_ = 0;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From ae25d1028fc5738aaedf768fb9f1d213055da28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 11/71] fix: SQL selection from a table without rows finds no
 rows rather than failing an assertion

---
 src/odc/sql/TODATableIterator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..b0855d2 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -63,8 +63,9 @@ TODATableIterator<READER>::TODATableIterator(
     metadataUpdateCallback_(metadataUpdateCallback),
     firstRow_(true) {
 
-    if (it_ != end_)
-        updateMetaData();
+    // n.b. A table without any rows still has columns
+
+    updateMetaData();
 }
 
 template <typename READER>
-- 
2.43.0


From 5b71c3218ee79e6dce5492f981306f7a5edfc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 12/71] fix: odc::Writer encodes every value of the first row
 of a frame

---
 src/odc/WriterBufferingIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..1efb45a 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -227,10 +227,10 @@ int WriterBufferingIterator::doWriteRow(core::DataStream<core::SameByteOrder>& s
         allocBuffers();
 
     // Find where the first changing row is
+    // n.b. The first row of a frame has no preceding row, so all of its values are encoded
 
-    // BUG: First row may not be properly encoded if it is zero.
     uint16_t k = 0;
-    for (; k < columns().size(); ++k) {
+    for (; nrows_ != 0 && k < columns().size(); ++k) {
         if (::memcmp(&values[columnOffsets_[k]], &lastValues_[columnOffsets_[k]], columnByteSizes_[k]) != 0)
             break;
     }
-- 
2.43.0


From 7df1143fc4d6a4966cdc0a258c50111673a9ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 13/71] fix: a copied codec keeps its byte order, so frames in
 the other byte order can be read through the api

---
 src/odc/core/Codec.cc | 2 +-
 src/odc/core/Codec.h  | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 008fa43..f28316f 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -32,7 +32,7 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
+    auto c           = buildSame();
     c->hasMissing_   = hasMissing_;
     c->missingValue_ = missingValue_;
     c->min_          = min_;
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..4d083f8 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -91,6 +91,9 @@ public:
 
 private:  // methods
 
+    /// Build a (default) codec with the same name, type and byte order as this one
+    virtual std::unique_ptr<Codec> buildSame() const = 0;
+
     virtual void print(std::ostream& s) const;
 
     friend std::ostream& operator<<(std::ostream& s, const Codec& p) {
@@ -157,6 +160,12 @@ protected:  // methods
         ds.write(missingValue_);
     }
 
+private:  // methods
+
+    std::unique_ptr<Codec> buildSame() const override {
+        return CodecFactory::instance().build<ByteOrder>(this->name_, this->type_);
+    }
+
 protected:
 
     // n.b. ds_ MUST be initialised before it is used.
-- 
2.43.0


From 807897c35c4d8a1e4c42f50f544bf6f4ea8501f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 14/71] fix: counts, lengths and string indices read from a
 header are checked against the data which is there

---
 src/odc/codec/String.h    |  8 +++-----
 src/odc/core/DataStream.h | 41 ++++++++++++++++++++++++++-------------
 src/odc/core/MetaData.h   |  4 ++--
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 5a5b71a..fece3f4 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -140,7 +140,7 @@ private:  // methods
         InternalInt i;
         static_cast<core::Codec&>(intCodec_).decode(reinterpret_cast<double*>(&i));
 
-        ASSERT(i < long(this->strings_.size()));
+        ASSERT(i >= 0 && i < long(this->strings_.size()));
         const std::string& s(this->strings_[i]);
 
         ::memset(out, 0, this->decodedSizeDoubles_ * sizeof(double));
@@ -155,9 +155,7 @@ private:  // methods
 
         // Load the table of strings
         // This is based on the old-style hash-table storage, so it isn't a trivial list of strings
-        int32_t numStrings;
-        ds.read(numStrings);
-        ASSERT(numStrings >= 0);
+        int32_t numStrings = ds.readCount(3 * sizeof(int32_t));
 
         this->strings_.resize(numStrings);
 
@@ -174,7 +172,7 @@ private:  // methods
             int32_t index;
             ds.read(index);
 
-            ASSERT(index < numStrings);
+            ASSERT(index >= 0 && index < numStrings);
             this->strings_[index] = s;
 
             if (s.length() != 0) {
diff --git a/src/odc/core/DataStream.h b/src/odc/core/DataStream.h
index a207a62..0219e5a 100644
--- a/src/odc/core/DataStream.h
+++ b/src/odc/core/DataStream.h
@@ -69,6 +69,11 @@ public:
 
     // Reading
 
+    size_t remaining() const { return end_ - current_; }
+
+    /// Read the number of elements which follow, each of which occupies at least minElementSize bytes
+    int32_t readCount(size_t minElementSize);
+
     template <typename T>
     void read(T& elem);
     template <typename T>
@@ -103,8 +108,8 @@ public:
         current_ = p;
     }
     void advance(size_t nbytes) {
+        ASSERT(nbytes <= remaining());
         current_ += nbytes;
-        ASSERT(current_ <= end_);
     }
 
 private:  // members
@@ -227,9 +232,7 @@ template <typename ByteOrder>
 template <typename T>
 inline void DataStream<ByteOrder>::read(std::vector<T>& vec) {
     vec.clear();
-    int32_t count;
-    read(count);
-    vec.resize(count);
+    vec.resize(readCount(sizeof(int32_t)));
     for (auto& elem : vec)
         read(elem);
 }
@@ -239,8 +242,7 @@ template <typename ByteOrder>
 template <typename T, typename S>
 inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
     props.clear();
-    int32_t count;
-    read(count);
+    int32_t count = readCount(2 * sizeof(int32_t));
     for (int32_t i = 0; i < count; i++) {
         T first;
         S second;
@@ -254,14 +256,29 @@ inline void DataStream<ByteOrder>::read(std::map<T, S>& props) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::read(std::string& s) {
 
-    int32_t len;
-    read(len);
+    int32_t len = readCount(1);
 
     s.resize(len);
     readBytes(&s[0], len);  // n.b. raw read. Bytes are in order.
 }
 
 
+template <typename ByteOrder>
+inline int32_t DataStream<ByteOrder>::readCount(size_t minElementSize) {
+
+    int32_t count;
+    read(count);
+
+    if (count < 0 || size_t(count) > remaining() / minElementSize) {
+        std::stringstream ss;
+        ss << "Invalid count " << count << " in DataStream with only " << remaining() << " bytes remaining";
+        throw ODBEndOfDataStream(ss.str(), Here());
+    }
+
+    return count;
+}
+
+
 // read --> takes endianness into account.
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
@@ -274,17 +291,15 @@ inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::readBytes(void* addr, size_t bytes) {
 
-    char* newpos = current_ + bytes;
-
-    if (newpos > end_) {
+    if (bytes > remaining()) {
         std::stringstream ss;
-        ss << "Attempting to read " << bytes << " bytes from DataStream with only " << (end_ - current_)
+        ss << "Attempting to read " << bytes << " bytes from DataStream with only " << remaining()
            << " bytes remaining";
         throw ODBEndOfDataStream(ss.str(), Here());
     }
 
     ::memcpy(addr, current_, bytes);
-    current_ = newpos;
+    current_ += bytes;
 }
 
 
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..ec2108f 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -148,8 +148,8 @@ void MetaData::load(DataStream<ByteOrder>& ds) {
         delete at(i);
     clear();
 
-    int32_t nCols;
-    ds.read(nCols);
+    // A column is described by at least a name, a type, the name of a codec and its statistics
+    int32_t nCols = ds.readCount(4 * sizeof(int32_t) + 3 * sizeof(double));
     resize(nCols, NULL);
     for (size_t i = 0; i < size(); i++) {
         delete at(i);
-- 
2.43.0


From a5a868396ea8af1fee0ae319b638e6969c452fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 15/71] fix: a frame whose header declares a negative size or
 more rows than its data can hold is refused

---
 src/odc/core/Header.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..68c82c4 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -77,6 +77,12 @@ void Header::load(DataHandle& dh) {
     ds1.read(headerSize);
 
     // Read the remaining header data
+    // n.b. Some DataHandles always return an estimate of 0 (e.g. on a stream)
+
+    if (headerSize < 0)
+        throw ODBInvalid(dh.title(), "Negative header size", Here());
+    if (dh.estimate() != 0 && eckit::Length(headerSize) > dh.estimate())
+        throw ODBIncomplete(dh.title(), Here());
 
     eckit::Buffer buffer(headerSize);
     if (dh.read(buffer, headerSize) != headerSize)
@@ -110,6 +116,11 @@ void Header::load(DataHandle& dh) {
     rowsNumber_ = numberOfRows;
     md_.rowsNumber(rowsNumber_);
 
+    // Each row has (at least) a two byte marker
+
+    if (nextFrameOffset < 0 || numberOfRows < 0 || numberOfRows > nextFrameOffset / 2)
+        throw ODBInvalid(dh.title(), "Inconsistent number of rows and size of data", Here());
+
     LOG_DEBUG_LIB(LibOdc) << "Header::load: numberOfRows = " << numberOfRows << std::endl;
 
     // Flags -> ODAFlags
-- 
2.43.0


From 0c6066d544e63ff1cbe131fe04d44408487aa19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 16/71] fix: rows with a start column out of range are refused,
 and nothing outside the data of a frame is decoded

---
 src/odc/ReaderIterator.cc | 15 +++++++++++++--
 src/odc/core/Table.cc     | 11 +++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..fbbfed7 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -151,7 +151,7 @@ void ReaderIterator::initRowBuffer() {
     size_t nCols       = columns().size();
 
     delete[] lastValues_;
-    lastValues_ = new double[numDoubles];
+    lastValues_ = new double[numDoubles]();
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
@@ -170,6 +170,12 @@ void ReaderIterator::initRowBuffer() {
 
 size_t ReaderIterator::readBuffer(size_t dataSize) {
 
+    // n.b. Some DataHandles always return an estimate of 0 (e.g. on a stream)
+
+    if (f_->estimate() != eckit::Length(0) && f_->estimate() < eckit::Length(dataSize)) {
+        throw ODBIncomplete(f_->title(), Here());
+    }
+
     // Ensure we have enough buffer space
 
     if (rowDataBuffer_.size() < dataSize) {
@@ -190,7 +196,9 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Assign the data to a DataStream.
 
-    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_);
+    // n.b. the buffer may be larger than the data, as it is reused
+
+    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_.data(), dataSize);
 
     // Assign the appropriate data stream to each of the codecs.
 
@@ -217,6 +225,9 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    if (size_t(startCol) > nCols) {
+        throw ODBInvalid(f_->title(), "Start column of row out of range", Here());
+    }
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index a653ec3..217fbc0 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -194,6 +194,7 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
+            ::memset((*facades[col])[0], 0, facades[col]->dataSize());
             *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
         }
     }
@@ -208,6 +209,8 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBInvalid(dh_.title(), "Start column of row out of range", Here());
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -369,6 +372,7 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         }
 
         visitColumn[it->second] = true;
+        maxDoublesDecode        = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
 
         // What do we do with the values?
 
@@ -389,7 +393,6 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
             case api::STRING:
                 columnValues[it->second].reset(
                     new StringColumnValues(columnName, sizeof(double) * metadata[it->second]->dataSizeDoubles()));
-                maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
                 break;
             default:
                 throw SeriousBug("Unexpected type in decoding column: " + columnName, Here());
@@ -420,6 +423,8 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBInvalid(dh_.title(), "Start column of row out of range", Here());
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
@@ -466,7 +471,9 @@ std::unique_ptr<Table> Table::readTable(odc::core::ThreadSharedDataHandle& dh) {
 
     // Check that the ODB hasn't been truncated.
     // n.b. Some DataHandles always return 0 (e.g. on a stream), so leth that pass.
-    if (newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0) {
+    // n.b. nextPosition can overflow if the size is corrupt.
+    if (newTable->nextPosition_ < newTable->dataPosition_ ||
+        (newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0)) {
         throw ODBIncomplete(dh.title(), Here());
     }
 
-- 
2.43.0


From 797881ae2e60b5df94a5590be79874d8401435e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 17/71] fix: a failure to write rows is reported once, rather
 than terminating the process when the writer is destroyed

---
 src/odc/WriterBufferingIterator.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 1efb45a..fb07d5b 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -13,6 +13,8 @@
 ///
 /// @author Piotr Kuchta, Feb 2009
 
+#include <exception>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
@@ -77,7 +79,18 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
 }
 
 WriterBufferingIterator::~WriterBufferingIterator() {
-    close();
+    if (std::uncaught_exceptions() == 0) {
+        close();
+    }
+    else {
+        // An error is being reported already (and may well be the reason why this fails too)
+        try {
+            close();
+        }
+        catch (std::exception& e) {
+            Log::error() << "Error closing output whilst handling an error: " << e.what() << std::endl;
+        }
+    }
     delete[] lastValues_;
     delete[] nextRow_;
     delete[] columnOffsets_;
@@ -318,6 +331,11 @@ void WriterBufferingIterator::flush() {
     if (nextRowInBuffer_ == rowsBuffer_ || rowsBuffer_.size() == 0)
         return;
 
+    // n.b. The buffered rows are written once. If this fails that is reported, and not tried again (e.g. on closing)
+
+    unsigned char* const endOfRows = nextRowInBuffer_;
+    nextRowInBuffer_               = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
+
     setOptimalCodecs();
 
     // n.b. ensure that we leave space for the header in the worst case (data doesn't compress at all)
@@ -328,7 +346,7 @@ void WriterBufferingIterator::flush() {
 
     size_t rowsWritten = 0;
     unsigned char* p   = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
-    while (p < nextRowInBuffer_) {
+    while (p < endOfRows) {
         doWriteRow(encodedStream, reinterpret_cast<double*>(p));
         p += rowByteSize_;
         ++rowsWritten;
@@ -349,10 +367,6 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
-    // Reset the write buffers
-
-    nextRowInBuffer_ = reinterpret_cast<unsigned char*>(rowsBuffer_.data());
-
     // This is a bad place to be. We need to reset the coders in the columns, not clone
     // the existing ones (which have been optimised).
 
-- 
2.43.0


From 54a1b21d8f4e36269f8192562f0102eefa066840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 18/71] fix: refuse impossible bitfield sizes before making a
 SQL type of them

---
 src/odc/sql/TODATable.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..b7e52a4 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -114,6 +114,12 @@ void TODATable<READER>::populateMetaData() {
                 sqlType = "double";
                 break;
             case BITFIELD: {
+                // n.b. the type makes a mask for each of the sizes, which may come from a corrupt header
+                for (long size : bitfieldDef.second) {
+                    if (size < 0 || size > 64) {
+                        throw UserError("Invalid bitfield size in column " + name, Here());
+                    }
+                }
                 std::string typeSignature =
                     type::SQLBitfield::make("Bitfield", bitfieldDef.first, bitfieldDef.second, "DummyTypeAlias");
                 addColumn(name, i, type::SQLType::lookup(typeSignature), hasMissing, missing, true, bitfieldDef);
-- 
2.43.0


From f58f6c222f5ec8e4e4f531499514c9e6994c8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 19/71] fix: codecs of strings whose bytes look like a NaN can
 be copied

---
 src/odc/codec/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index fece3f4..595826d 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -298,8 +298,10 @@ std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
     c.decodedSizeDoubles_            = decodedSizeDoubles_;
-    ASSERT(c.min() == this->min_);
-    ASSERT(c.max() == this->max_);
+
+    // n.b. The bytes of a string may look like a NaN, which doesn't compare equal
+    ASSERT(::memcmp(&c.min_, &this->min_, sizeof(this->min_)) == 0);
+    ASSERT(::memcmp(&c.max_, &this->max_, sizeof(this->max_)) == 0);
     return cdc;
 }
 
-- 
2.43.0


From 69b57532d76f45fbabc37c2722f1b3211fb0759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 20/71] fix: spans hold exactly the values of the rows, also
 for long constant strings, frames without rows, NaNs and columns named twice

---
 src/odc/core/Span.cc  |  6 +++-
 src/odc/core/Table.cc | 77 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/odc/core/Span.cc b/src/odc/core/Span.cc
index 5f4a80d..3402cbe 100644
--- a/src/odc/core/Span.cc
+++ b/src/odc/core/Span.cc
@@ -10,6 +10,7 @@
 
 #include "odc/core/Span.h"
 
+#include <cmath>
 #include <cstring>
 
 #include "eckit/exception/Exceptions.h"
@@ -60,7 +61,10 @@ void Span::addValue(const std::string& column, api::ColumnType t, double val) {
         case api::DOUBLE:
             ASSERT(integerValues_.find(column) == integerValues_.end());
             ASSERT(stringValues_.find(column) == stringValues_.end());
-            realValues_[column].insert(val);
+            // n.b. A NaN has no place in a set, where it would hide the other values
+            realValues_[column];
+            if (!std::isnan(val))
+                realValues_[column].insert(val);
             break;
 
         case api::STRING: {
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 217fbc0..5192516 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -11,6 +11,7 @@
 #include "odc/core/Table.h"
 
 #include <bitset>
+#include <cmath>
 #include <cstring>
 #include <functional>
 
@@ -253,6 +254,30 @@ void Table::decode(DecodeTarget& target) {
 }
 
 
+namespace {
+
+// A column which is in the span, but without any values
+
+void addNoValues(Span& s, const std::string& columnName, api::ColumnType type) {
+    switch (type) {
+        case api::INTEGER:
+        case api::BITFIELD:
+            s.addValues(columnName, std::set<long>{});
+            break;
+        case api::REAL:
+        case api::DOUBLE:
+            s.addValues(columnName, std::set<double>{});
+            break;
+        case api::STRING:
+            s.addValues(columnName, std::set<std::string>{});
+            break;
+        default:
+            throw SeriousBug("Unexpected type in column: " + columnName, Here());
+    }
+}
+
+}  // namespace
+
 Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
 
     Span s(startPosition(), nextPosition() - startPosition());
@@ -268,7 +293,20 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
             throw UserError("Column '" + columnName + "' not found", Here());
 
         if (column->isConstant()) {
-            s.addValue(columnName, column->type(), column->min());
+            if (rowCount() == 0) {
+                addNoValues(s, columnName, column->type());
+            }
+            else if (column->type() == api::STRING) {
+                // n.b. A constant string may be longer than fits in the min/max values of the header
+                std::vector<double> value(column->dataSizeDoubles());
+                column->coder().decode(value.data());
+                const char* c = reinterpret_cast<const char*>(value.data());
+                s.addValues(columnName,
+                            std::set<std::string>{std::string(c, ::strnlen(c, value.size() * sizeof(double)))});
+            }
+            else {
+                s.addValue(columnName, column->type(), column->min());
+            }
         }
         else {
             nonConstantColumns.push_back(columnName);
@@ -329,7 +367,11 @@ struct IntegerColumnValues : ColumnValues<long> {
 
 struct DoubleColumnValues : ColumnValues<double> {
     using ColumnValues<double>::ColumnValues;
-    void addValue(double* val) override { values_.insert(*val); }
+    void addValue(double* val) override {
+        // n.b. A NaN has no place in a set, where it would hide the other values
+        if (!std::isnan(*val))
+            values_.insert(*val);
+    }
 };
 
 struct StringColumnValues : ColumnValues<std::string> {
@@ -353,7 +395,9 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
     // Store the unique values
 
-    std::vector<std::unique_ptr<ColumnValuesBase>> columnValues(ncols);
+    // n.b. A column may be asked for by more than one name
+
+    std::vector<std::vector<std::unique_ptr<ColumnValuesBase>>> columnValues(ncols);
 
     // Loop over the specified output columns, and select the correct ones for decoding.
 
@@ -380,18 +424,18 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
             case api::BITFIELD:
             case api::INTEGER:
                 if (ODBAPISettings::instance().integersAsDoubles()) {
-                    columnValues[it->second].reset(new IntegerColumnValuesAsDoubles(columnName));
+                    columnValues[it->second].emplace_back(new IntegerColumnValuesAsDoubles(columnName));
                 }
                 else {
-                    columnValues[it->second].reset(new IntegerColumnValues(columnName));
+                    columnValues[it->second].emplace_back(new IntegerColumnValues(columnName));
                 }
                 break;
             case api::REAL:
             case api::DOUBLE:
-                columnValues[it->second].reset(new DoubleColumnValues(columnName));
+                columnValues[it->second].emplace_back(new DoubleColumnValues(columnName));
                 break;
             case api::STRING:
-                columnValues[it->second].reset(
+                columnValues[it->second].emplace_back(
                     new StringColumnValues(columnName, sizeof(double) * metadata[it->second]->dataSizeDoubles()));
                 break;
             default:
@@ -429,20 +473,33 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
-                columnValues[col]->addValue(decodeBuffer);
+                for (const auto& values : columnValues[col]) {
+                    values->addValue(decodeBuffer);
+                }
             }
             else {
                 decoders[col].get().skip();
             }
         }
+
+        // Columns which are left out of the first row are missing there (see decode())
+
+        for (int col = 0; rowCount == 0 && col < startCol; col++) {
+            std::fill(decodeBufferVec.begin(), decodeBufferVec.end(), 0);
+            *decodeBuffer = decoders[col].get().missingValue();
+            for (const auto& values : columnValues[col]) {
+                values->addValue(decodeBuffer);
+            }
+        }
     }
 
     // And add these to the spans
 
     Span s(startPosition(), nextPosition() - startPosition());
-    for (const auto& values : columnValues) {
-        if (values.get())
+    for (const auto& colValues : columnValues) {
+        for (const auto& values : colValues) {
             values->updateSpan(s);
+        }
     }
     return s;
 }
-- 
2.43.0


From c77b2a6b11f4116fe833c4f2e085a88dcfca5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 21/71] fix: odc_frame_property_idx checks the index always,
 and copied frames do not share the index of properties

---
 src/odc/api/Odb.cc |  4 ++--
 src/odc/api/odc.cc | 27 +++++++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..d007cd7 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index f7e6d6f..5f06bf3 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -379,10 +379,10 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -401,10 +401,10 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->propertiesMemoised_ = false;
+        frame->propertiesIndex_.clear();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -416,7 +416,9 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        ASSERT(copy);
+        // n.b. The index of properties refers to the properties of the source frame
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
@@ -476,6 +478,7 @@ int odc_frame_bitfield_attributes(const odc_frame_t* frame, int col, int field,
 int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
     return wrapApiFunction([frame, nproperties] {
         ASSERT(frame);
+        ASSERT(nproperties);
 
         (*nproperties) = frame->frame_.properties().size();
     });
@@ -484,11 +487,13 @@ int odc_frame_properties_count(const odc_frame_t* frame, int* nproperties) {
 int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key, const char** value) {
     return wrapApiFunction([frame, idx, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
 
-        if (!frame->propertiesMemoised_) {
-            const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
+        const auto& properties(frame->frame_.properties());
+        ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
+        if (!frame->propertiesMemoised_) {
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
                  ++it) {
@@ -506,6 +511,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 int odc_frame_property(const odc_frame_t* frame, const char* key, const char** value) {
     return wrapApiFunction([frame, key, value] {
         ASSERT(frame);
+        ASSERT(key);
+        ASSERT(value);
         const auto& properties(frame->frame_.properties());
 
         auto it = properties.find(key);
-- 
2.43.0


From 32324431cfc0a8d1e039886ccc240f08a9f39b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/71] fix: keep the error string of the C API per thread

---
 src/odc/api/odc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 5f06bf3..af6a433 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -99,7 +99,8 @@ struct odc_encoder_t {
 
 /* Error handling */
 
-static std::string g_current_error_str;
+// n.b. The error string describes the most recent error in the current thread
+static thread_local std::string g_current_error_str;
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
-- 
2.43.0


From 6f596f0e8c749361b4ee1253a0a8d961f264194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 23/71] fix: refuse to decode with zero threads rather than
 decode nothing

---
 src/odc/api/Odb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index d007cd7..f7e507c 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -353,6 +353,8 @@ size_t FrameImpl::columnCount() const {
 
 void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
 
+    ASSERT(nthreads >= 1);
+
     if (tables_.size() == 1) {
         tables_[0].decode(target);
     }
-- 
2.43.0


From 130b54661ed73a460501c0a8c8c2a7438c85c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 24/71] fix: a short write is reported, rather than repeated
 and then taken for success

---
 src/odc/WriterBufferingIterator.cc | 9 +++++----
 src/odc/core/Encoder.cc            | 7 +++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index fb07d5b..7d20009 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -360,10 +360,11 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates a condition that fails twice, so the writing must not be part of it
+    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
+    ASSERT(dataWritten == long(encodedStream.position()));
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..1080d82 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -113,9 +113,12 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
     std::pair<Buffer, size_t> encodedHeader = Header::serializeHeader(encodedStream.position(), nrows, props, md);
 
     // And output the data
+    // n.b. ASSERT evaluates a condition that fails twice, so the writing must not be part of it
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    const long headerWritten = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == long(encodedStream.position()));
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 44e6bb315054698c34c6c3b9d886bb27c19a428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 25/71] fix: splitting reports a failure to write the output,
 rather than deleting a writer twice

---
 src/odc/WriterDispatchingIterator.cc | 12 +++++++++---
 src/odc/WriterDispatchingIterator.h  |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..8e43801 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -182,8 +182,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
                               << iteratorIndex2fileName_[iteratorIndex] << "' "
                               << " (oldest row: " << oldestRow << "), nrows_=" << nrows_ << std::endl;
 
-        delete iterators_[iteratorIndex];
+        // n.b. Closed explicitly, so a failure to write what is buffered is reported
+        std::unique_ptr<WRITE_ITERATOR> evicted(iterators_[iteratorIndex]);
         iterators_[iteratorIndex] = 0;
+        evicted->close();
+        evicted.reset();
 
         Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
         for (; vit != values2iteratorIndex_.end(); ++vit)
@@ -545,8 +548,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
     // LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator<WRITE_ITERATOR>::close()" << std::endl;
     int rc = 0;
     for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {
-        rc |= (*it)->close();
-        delete *it;
+        // n.b. If closing fails, this iterator must not be deleted again by the destructor
+        std::unique_ptr<WRITE_ITERATOR> closing(*it);
+        *it = 0;
+        if (closing)
+            rc |= closing->close();
     }
     iterators_.clear();
 
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..bac7f30 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -18,6 +18,7 @@
 
 #include <cstdint>
 #include <map>
+#include <memory>
 
 #include "eckit/sql/SQLTypedefs.h"
 
-- 
2.43.0


From 7ca9ededf0c7e9638dfc7f607aec34452e04096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 26/71] fix: a failure to write the last rows is reported when
 merging, sorting for a split and selecting into a file, rather than
 terminating

---
 src/odc/sql/ODAOutput.cc   | 2 ++
 src/odc/tools/MergeTool.cc | 8 ++++++--
 src/odc/tools/SplitTool.cc | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index b5c0168..1d6bdba 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -55,6 +55,8 @@ void ODAOutput<WRITER>::flush() {}
 
 template <typename WRITER>
 void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
+    // n.b. Closed explicitly, so a failure to write what is buffered is reported
+    (**it_).close();
     sql.outputFiles((**it_).outputFiles());
 }
 
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..ec71784 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -98,8 +98,12 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
             I& inEnd(iterators[ii].second);
-            if (!(in != inEnd))
-                return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
+            if (!(in != inEnd)) {
+                Log::info() << "Input file number " << ii << " ended." << std::endl;
+                // n.b. Closed explicitly, so a failure to write what is buffered is reported
+                (**out).close();
+                return;
+            }
 
             for (size_t cn = 0; cn < in->columns().size(); ++cn) {
                 ASSERT(i < out->columns().size());
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..95a2518 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -131,6 +131,7 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
+    outIt->close();
 }
 
 void SplitTool::split(const PathName& inFile, const std::string& outFileTemplate, size_t maxOpenFiles, bool verify) {
-- 
2.43.0


From d6de642751b6cc402c8f1419e2c9de29875fdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 27/71] fix: odc split -sort does not open its input twice,
 which failed always

---
 src/odc/tools/SplitTool.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 95a2518..4e59e89 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -126,9 +126,8 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
+        odc::Select in(sql, h);  // n.b. this opens the handle
         AutoClose closer(h);
-        odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
     }
     outIt->close();
-- 
2.43.0


From 293d30fa62d0e204231fa97bd677b3cc47019e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 28/71] fix: splitting dispatches rows by the whole key,
 wherever its column is, and writes each output once

The values of the key were taken from the wrong place when a wide string column preceded them, only the first 8
characters of strings counted, slashes were replaced wrongly, values giving the same file name were written by two
writers at once, an output once appended to made all those created later append to stale files, and the verification
looked up outputs which had been closed.
---
 src/odc/WriterDispatchingIterator.cc | 200 +++++++++++++++++----------
 src/odc/WriterDispatchingIterator.h  |   8 +-
 2 files changed, 132 insertions(+), 76 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 8e43801..9e4255c 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -40,7 +40,7 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     lastDispatch_(maxOpenFiles, -1),
     iteratorIndex2fileName_(maxOpenFiles),
     lastDispatchedValues_(),
-    lastIndex_(),
+    lastIndex_(-1),
     initialized_(false),
     append_(append),
     refCount_(0),
@@ -84,19 +84,18 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::setBitfieldColumn(size_t i
 template <typename WRITE_ITERATOR, typename OWNER>
 std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(const double* values,
                                                                                unsigned long count) {
-    // n.b. Duplicated from eckit::sql::expression::function::FunctionEQ::trimStringInDouble.
+    // n.b. Derived from eckit::sql::expression::function::FunctionEQ::trimStringInDouble.
     // Provided as static lambda because this .cc file is included in the header and even when the
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimString = [](const char*& p, size_t& len, size_t maxlen) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < maxlen && isprint(static_cast<unsigned char>(p[len])); ++len)
             ;
         for (; len > 0 && isspace(p[len - 1]); --len)
             ;
-        size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        while (len > 0 && isspace(*p)) {
             ++p;
             --len;
         }
@@ -109,23 +108,21 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        const core::Column& column(*columns_[p.columnIndex]);
+        const double* value(values + dispatchedOffset(p.columnIndex));
         std::string s;
-        if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+        if (column.type() == api::STRING) {
+            const char* sp(reinterpret_cast<const char*>(value));
             size_t len(0);
-            trimStringInDouble(sp, len);
+            trimString(sp, len, column.dataSizeDoubles() * sizeof(double));
             s = std::string(sp, len);
-            while (s.find("/") != std::string::npos) {
-                std::string old(s);
-                size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
-                // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
-                // << std::endl;
-            }
+
+            static const std::string slash("__SLASH__");
+            for (size_t pos = s.find("/"); pos != std::string::npos; pos = s.find("/", pos + slash.size()))
+                s.replace(pos, 1, slash);
         }
         else {
-            s = eckit::Translator<int, std::string>()(int(d));
+            s = eckit::Translator<int, std::string>()(int(*value));
         }
 
         fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
@@ -143,27 +140,40 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
+    // n.b. All of the data of a column counts, as strings may be longer than a double. The values are compared as
+    //      bytes, as strings may look like NaNs
     Values dispatchedValues;
-    for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
+    for (size_t i(0); i < dispatchedIndexes_.size(); ++i) {
+        const double* value(values + dispatchedOffset(dispatchedIndexes_[i]));
+        dispatchedValues.append(reinterpret_cast<const char*>(value),
+                                columns_[dispatchedIndexes_[i]]->dataSizeDoubles() * sizeof(double));
+    }
 
-    if (dispatchedValues == lastDispatchedValues_)
-        return lastIndex_;
+    if (lastIndex_ == -1 || dispatchedValues != lastDispatchedValues_) {
 
-    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
-    size_t iteratorIndex((p != values2iteratorIndex_.end())
-                             ? p->second
-                             : createIterator(dispatchedValues, generateFileName(values, count)));
+        Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
+        lastIndex_            = (p != values2iteratorIndex_.end())
+                                    ? p->second
+                                    : createIterator(dispatchedValues, generateFileName(values, count));
+        lastDispatchedValues_ = dispatchedValues;
+    }
 
-    lastDispatchedValues_        = dispatchedValues;
-    lastIndex_                   = iteratorIndex;
-    lastDispatch_[iteratorIndex] = nrows_;
-    return iteratorIndex;
+    lastDispatch_[lastIndex_] = nrows_;
+    return lastIndex_;
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
                                                                      const std::string& fileName) {
+    // Different values may give the same name, and a file must not be written by two iterators
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        if (iterators_[i] && iteratorIndex2fileName_[i] == fileName) {
+            values2iteratorIndex_[dispatchedValues] = i;
+            return i;
+        }
+    }
+
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -188,15 +198,16 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         evicted->close();
         evicted.reset();
 
-        Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
+        for (Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin()); vit != values2iteratorIndex_.end();) {
             if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+                vit = values2iteratorIndex_.erase(vit);
+            else
+                ++vit;
+        }
     }
 
     std::string operation;
-    // bool append = false;
+    bool append = append_;
     if (append_ || !eckit::PathName(fileName).exists()) {
         filesCreated_[fileName] = 1;
         operation               = "creating";
@@ -207,7 +218,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
             operation               = "overwriting";
         }
         else {
-            append_ = true;
+            append = true;
             filesCreated_[fileName]++;
             operation = "appending";
         }
@@ -216,11 +227,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
     if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
+        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append));
         files_.push_back(fileName);
     }
     else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
+        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
         files_[iteratorIndex]     = fileName;
         // ASSERT(files_[iteratorIndex] == fileName);
     }
@@ -273,10 +284,13 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
+    std::fill(lastValues_, lastValues_ + numDoubles, 0);
+    std::fill(nextRow_, nextRow_ + numDoubles, 0);
+
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
@@ -300,9 +314,40 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
     dispatchedIndexes_.clear();
     for (size_t i(0); i < templateParameters_.size(); ++i)
         dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+
+    // What has been dispatched before was for columns which may have been different
+    values2iteratorIndex_.clear();
+    lastDispatchedValues_.clear();
+    lastIndex_ = -1;
+
     initialized_ = true;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+size_t WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchedOffset(size_t columnIndex) const {
+    size_t offset = 0;
+    for (size_t i = 0; i < columnIndex; ++i)
+        offset += columns_[i]->dataSizeDoubles();
+    return offset;
+}
+
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::changeColumns(const MetaData& md) {
+    columns(md);
+    columns_.resetCodecs<SameByteOrder>();
+    columns_.resetStats();
+
+    parseTemplateParameters();
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        if (iterators_[i]) {
+            iterators_[i]->flush();
+            iterators_[i]->columns(columns());
+            iterators_[i]->writeHeader();
+        }
+    }
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 double* WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::data() {
     return nextRow_;
@@ -416,10 +461,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     }
 
     // Copy columns from the input iterator.
-    columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    if (!initialized_ || columns() != it->columns())
+        changeColumns(it->columns());
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -430,14 +473,7 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     nrows_ = 0;
     for (; it != end; ++it) {
         if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
+            changeColumns(it->columns());
         }
 
         const double* data(it->data());
@@ -454,8 +490,17 @@ template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     const std::map<std::string, size_t>& resetColumnSizeDoubles) {
     for (size_t i = 0; i < iterators_.size(); ++i) {
-        iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
+        if (iterators_[i])
+            iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
+    }
+    for (const auto& kv : resetColumnSizeDoubles) {
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
     }
+
+    // The rows have another layout from now on
+    if (initialized_)
+        parseTemplateParameters();
+    writeHeader();
 }
 
 
@@ -469,16 +514,20 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
 
     // Copy columns from the input iterator.
     columns(it->columns());
+    parseTemplateParameters();
 
-    vector<Reader*> readers;
-    vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
-        readers.push_back(reader);
-        iterators.push_back(make_pair(reader->begin(), reader->end()));
-    }
-
-    vector<size_t> rowsRead(files_.size());
+    // The outputs are read side by side, as far as they may be open at the same time
+    struct Output {
+        Output(const std::string& fileName, size_t skip) : reader(fileName), it(reader.begin()), end(reader.end()) {
+            for (; skip > 0 && it != end; --skip)
+                ++it;
+        }
+        Reader reader;
+        Reader::iterator it;
+        Reader::iterator end;
+    };
+    map<std::string, unique_ptr<Output>> outputs;
+    map<std::string, size_t> rowsRead;
 
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
@@ -493,43 +542,42 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
             parseTemplateParameters();
         }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+        const std::string outFileName(generateFileName(it->data(), it->columns().size()));
 
         size_t n(columns().size());
-        typedef Reader::iterator I;
-        std::pair<I, I>& its(iterators[fileIndex]);
-        I &sIt(its.first), sEnd(its.second);
-
-        const MetaData& sMetaData(sIt->columns());
         try {
+            unique_ptr<Output>& output(outputs[outFileName]);
+            if (!output) {
+                for (auto o = outputs.begin(); outputs.size() > size_t(maxOpenFiles_) && o != outputs.end();)
+                    o = (o->first != outFileName) ? outputs.erase(o) : std::next(o);
+                output.reset(new Output(outFileName, rowsRead[outFileName]));
+            }
+            Reader::iterator &sIt(output->it), &sEnd(output->end);
             ASSERT(sIt != sEnd);
+            ++rowsRead[outFileName];
 
             // In the parent codec, we will always have the largest data size (e.g. for
             // the longest string). This will not be true in the dispatched iterators
             // which will only be large enough for the strings dispatched to them.
             bool compareDataSizes = false;
+            const MetaData& sMetaData(sIt->columns());
             ASSERT(sMetaData.equals(columns(), compareDataSizes));
 
-            ++rowsRead[fileIndex];
             const double* const originalData(it->data());
             const double* const outputData(sIt->data());
             comparator.compare(n, originalData, outputData, columns(), sMetaData);
+            ++sIt;
         }
         catch (...) {
             ++numberOfDifferences;
-            Log::info() << "Row " << i << " of input (" << rowsRead[fileIndex] << " of " << outFileName
+            Log::info() << "Row " << i << " of input (" << rowsRead[outFileName] << " of " << outFileName
                         << ") not correct." << endl
                         << endl;
         }
         ++it;
-        ++sIt;
     }
     Log::info() << "Number of rows: " << i << ". Total number of differences: " << numberOfDifferences << std::endl;
     ASSERT(!(it != end));
-
-    for (size_t j = 0; j < readers.size(); ++j)
-        delete readers[j];
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
@@ -555,6 +603,8 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::close() {
             rc |= closing->close();
     }
     iterators_.clear();
+    values2iteratorIndex_.clear();
+    lastIndex_ = -1;
 
     return rc;
 }
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index bac7f30..34f3550 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -39,7 +39,7 @@ class TemplateParameters;
 
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
-    typedef std::vector<double> Values;
+    typedef std::string Values;
     typedef std::map<Values, int> Values2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
@@ -141,6 +141,12 @@ private:
 
     void parseTemplateParameters();
 
+    /// Change the columns of the input, finishing what has been written with those so far
+    void changeColumns(const core::MetaData& md);
+
+    /// The offset of a given column in the data of a row, which is being dispatched
+    size_t dispatchedOffset(size_t columnIndex) const;
+
     int refCount_;
 
     Iterators iterators_;
-- 
2.43.0


From 7792512620a9c46094f42f4944beecea3e9ae080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 29/71] fix: ordered and grouped results may have longer
 strings than the first frame

---
 src/odc/sql/ODAOutput.cc       | 19 +++++++++++++++++++
 src/odc/sql/SQLSelectOutput.cc | 29 +++++++++++++++++++++++++++++
 src/odc/sql/SQLSelectOutput.h  |  3 +++
 3 files changed, 51 insertions(+)

diff --git a/src/odc/sql/ODAOutput.cc b/src/odc/sql/ODAOutput.cc
index 1d6bdba..658e327 100644
--- a/src/odc/sql/ODAOutput.cc
+++ b/src/odc/sql/ODAOutput.cc
@@ -63,6 +63,25 @@ void ODAOutput<WRITER>::cleanup(SQLSelect& sql) {
 template <typename WRITER>
 bool ODAOutput<WRITER>::output(const expression::Expressions& results) {
     size_t nCols(results.size());
+
+    // n.b. Results which have been cached (ORDER BY, aggregation) can stem from another frame than the types
+
+    std::map<std::string, size_t> resetColumnSizeDoubles;
+    for (size_t i = 0; i < nCols; ++i) {
+        if (it_->columns()[i]->type() == STRING) {
+            bool missing = false;
+            size_t len   = results[i]->evalAsString(missing).size();
+            if (!missing && len > columnSizes_[i]) {
+                size_t sizeDoubles = (len + sizeof(double) - 1) / sizeof(double);
+                columnSizes_[i]    = sizeDoubles * sizeof(double);
+
+                resetColumnSizeDoubles[it_->columns()[i]->name()] = sizeDoubles;
+            }
+        }
+    }
+    if (!resetColumnSizeDoubles.empty())
+        it_->flushAndResetColumnSizes(resetColumnSizeDoubles);
+
     for (col_ = 0; col_ < nCols; ++col_) {
         results[col_]->output(*this);
     }
diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..4faadeb 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -121,6 +121,11 @@ void SQLSelectOutput::outputString(const char* s, size_t len, bool missing) {
     ASSERT(pos_ >= out_ && (pos_ + columnSizesDoubles_[currentColumn_]) <= end_);
 
     size_t charSize = columnSizesDoubles_[currentColumn_] * sizeof(double);
+    if (len > charSize && manageOwnBuffer_) {
+        // n.b. Results which have been cached (ORDER BY, aggregation) can stem from another frame than the types
+        growColumn(currentColumn_, (len + sizeof(double) - 1) / sizeof(double));
+        charSize = columnSizesDoubles_[currentColumn_] * sizeof(double);
+    }
     if (len > charSize) {
         std::ostringstream ss;
         ss << "String too long for configured output: " << len << " > " << charSize;
@@ -142,6 +147,30 @@ void SQLSelectOutput::outputString(const char* s, size_t len, bool missing) {
 }
 
 
+void SQLSelectOutput::growColumn(size_t index, size_t sizeDoubles) {
+    ASSERT(manageOwnBuffer_);
+    ASSERT(sizeDoubles > columnSizesDoubles_[index]);
+
+    const size_t extra = sizeDoubles - columnSizesDoubles_[index];
+
+    columnSizesDoubles_[index] = sizeDoubles;
+    metaData_[index]->dataSizeDoubles(sizeDoubles);
+    for (size_t i = index + 1; i < offsets_.size(); ++i)
+        offsets_[i] += extra;
+    requiredBufferSize_ += extra;
+
+    const size_t done = pos_ - out_;
+    data_.resize(requiredBufferSize_);
+    out_            = data_.data();
+    pos_            = out_ + done;
+    end_            = out_ + requiredBufferSize_;
+    bufferElements_ = requiredBufferSize_;
+
+    isNewDataset_        = true;
+    newDatasetOutputted_ = false;
+}
+
+
 void SQLSelectOutput::prepare(SQLSelect& sql) {
     updateTypes(sql);
 }
diff --git a/src/odc/sql/SQLSelectOutput.h b/src/odc/sql/SQLSelectOutput.h
index 21bf7d4..7d9913b 100644
--- a/src/odc/sql/SQLSelectOutput.h
+++ b/src/odc/sql/SQLSelectOutput.h
@@ -67,6 +67,9 @@ private:  // utility
 
     void outputNumber(double val, bool missing);
 
+    /// Make a string column wider whilst a row is being output
+    void growColumn(size_t index, size_t sizeDoubles);
+
 private:  // methods (overrides)
 
     virtual void print(std::ostream&) const;
-- 
2.43.0


From b5d19b973e60b556becfe317b4c6dd3d8f1c94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 30/71] fix: a custom missing value survives resetting the
 codec of a column, so later frames and copies keep it

---
 src/odc/core/Column.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..4b218c7 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -212,9 +212,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // ... and what denotes a missing value
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING)
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From c3d08b0c100eca45e44281594fcea14428892663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 31/71] fix: Writer::rowsBufferSize(n) returns the writer,
 rather than nothing

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From 96ac4d30dde21d0ee92f3fd62e3929cd0a7af4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 32/71] fix: rows which are waiting are written before the
 columns of a writer are redefined

---
 src/odc/WriterBufferingIterator.cc |  3 +++
 src/odc/WriterBufferingIterator.h  | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 7d20009..8e7a551 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -285,6 +285,7 @@ int WriterBufferingIterator::open() {
 int WriterBufferingIterator::setColumn(size_t index, std::string name, api::ColumnType type) {
     // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setColumn: " << std::endl;
     ASSERT(index < columns().size());
+    flushPending();
     Column* col = columns_[index];
     ASSERT(col);
 
@@ -309,6 +310,7 @@ int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, a
                                                eckit::sql::BitfieldDef b) {
     // LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::setBitfieldColumn: " << std::endl;
     ASSERT(index < columns().size());
+    flushPending();
     Column* col = columns_[index];
     ASSERT(col);
 
@@ -320,6 +322,7 @@ int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, a
 
 void WriterBufferingIterator::missingValue(size_t i, double missingValue) {
     ASSERT(i < columns().size());
+    flushPending();
     Column* col = columns_[i];
     ASSERT(col);
 
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..bcd6758 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -72,6 +72,7 @@ public:
 
     const core::MetaData& columns() const { return columns_; }
     const core::MetaData& columns(const core::MetaData& md) {
+        flushPending();
         columns_ = md;
         for (auto& col : columns_)
             col->resetCodec<core::SameByteOrder>();  // We want to use the default codecs for encoding
@@ -79,7 +80,10 @@ public:
         return columns_;
     }
 
-    void setNumberOfColumns(size_t n) { columns_.setSize(n); }
+    void setNumberOfColumns(size_t n) {
+        flushPending();
+        columns_.setSize(n);
+    }
 
     Owner& owner() { return owner_; }
 
@@ -109,6 +113,12 @@ public:
 
     void flush();
 
+    /// Write the rows which are waiting, before the columns they belong to are changed
+    void flushPending() {
+        if (initialisedColumns_)
+            flush();
+    }
+
     std::vector<eckit::PathName> outputFiles();
     bool next();
 
-- 
2.43.0


From 99ec39737390b157424421e84c98b7535781b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 33/71] fix: copying rows starts a new frame when bitfield
 definitions or missing values change

---
 src/odc/WriterBufferingIterator.cc | 13 +++++++++++++
 src/odc/WriterBufferingIterator.h  |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 8e7a551..3b713ca 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -235,6 +235,19 @@ size_t WriterBufferingIterator::rowDataSizeDoublesInternal() const {
     return total;
 }
 
+bool WriterBufferingIterator::sameColumns(const core::MetaData& md) const {
+    if (md != columns())
+        return false;
+
+    for (size_t i = 0; i < md.size(); ++i) {
+        if (md[i]->type() == api::BITFIELD && md[i]->bitfieldDef() != columns_[i]->bitfieldDef())
+            return false;
+        if (md[i]->type() != api::STRING && md[i]->rawMissingValue() != columns_[i]->rawMissingValue())
+            return false;
+    }
+    return true;
+}
+
 int WriterBufferingIterator::doWriteRow(core::DataStream<core::SameByteOrder>& stream, const double* values) {
     if (lastValues_ == 0)
         allocBuffers();
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index bcd6758..9ea4365 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -130,6 +130,9 @@ private:
 
     size_t rowDataSizeDoublesInternal() const;
 
+    /// Can rows with the given columns go on in the same frame?
+    bool sameColumns(const core::MetaData& md) const;
+
 public:
 
     int refCount_;
@@ -209,7 +212,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !sameColumns(it->columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
-- 
2.43.0


From 303c39064cbc098e9e12dadbf7b826ed914a5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 34/71] fix: the fields of a bitfield are selected by the
 definition in the data, not by that of the first bitfield of the same name in
 the process

---
 src/odc/sql/TODATable.cc         | 67 +++++++++++++++++++++++++++-----
 src/odc/sql/TODATable.h          | 31 +++++++++++++++
 src/odc/sql/TODATableIterator.cc |  3 ++
 3 files changed, 91 insertions(+), 10 deletions(-)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index b7e52a4..e07984a 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -61,9 +61,62 @@ class ODAFactory : public eckit::sql::SQLTableFactoryBase {
 
 ODAFactory odaFactoryInstance;
 
+void checkBitfield(const std::string& name, const BitfieldDef& def) {
+    // n.b. a mask is made for each of the sizes, which may come from a corrupt header
+    for (long size : def.second) {
+        if (size < 0 || size > 64) {
+            throw UserError("Invalid bitfield size in column " + name, Here());
+        }
+    }
+}
+
 }  // namespace
 
-//---------------------------------------------------------------------------------------------------------------------
+//----------------------------------------------------------------------------------------------------------------------
+
+BitfieldColumnType::BitfieldColumnType(const std::string& name, const BitfieldDef& def) :
+    SQLBitfield(name, def.first, def.second), current_(def) {}
+
+void BitfieldColumnType::update(const BitfieldDef& def) const {
+    checkBitfield(name(), def);
+    current_ = def;
+}
+
+const type::SQLType* BitfieldColumnType::subType(const std::string& name) const {
+
+    // The name is that of the column, column.field, or column.field@table
+
+    if (name == this->name() || name == this->name().substr(0, this->name().find('@')))
+        return this;
+
+    std::string field = name.substr(0, name.find('@', name.find('.') + 1));
+    field             = field.substr(field.rfind('.') + 1);
+
+    unsigned long shift = 0;
+    for (size_t i = 0; i < current_.first.size(); ++i) {
+        const unsigned long size = current_.second[i];
+        if (current_.first[i] == field) {
+            if (shift + size > 64) {
+                throw UserError("Field \"" + field + "\" of bitfield " + this->name() + " is out of range", Here());
+            }
+            const unsigned long mask = (size == 64 ? ~0UL : (1UL << size) - 1) << (size ? shift : 0);
+
+            for (const auto& bit : bits_) {
+                if (bit->name() == name && bit->mask() == mask && bit->shift() == shift) {
+                    return bit.get();
+                }
+            }
+            bits_.emplace_back(new type::SQLBit(name, mask, shift));
+            return bits_.back().get();
+        }
+        shift += size;
+    }
+
+    throw UserError("Field \"" + field + "\" not found in bitfield " + this->name() + ", but required in SQL request.",
+                    Here());
+}
+
+//----------------------------------------------------------------------------------------------------------------------
 
 
 template <typename READER>
@@ -114,15 +167,9 @@ void TODATable<READER>::populateMetaData() {
                 sqlType = "double";
                 break;
             case BITFIELD: {
-                // n.b. the type makes a mask for each of the sizes, which may come from a corrupt header
-                for (long size : bitfieldDef.second) {
-                    if (size < 0 || size > 64) {
-                        throw UserError("Invalid bitfield size in column " + name, Here());
-                    }
-                }
-                std::string typeSignature =
-                    type::SQLBitfield::make("Bitfield", bitfieldDef.first, bitfieldDef.second, "DummyTypeAlias");
-                addColumn(name, i, type::SQLType::lookup(typeSignature), hasMissing, missing, true, bitfieldDef);
+                checkBitfield(name, bitfieldDef);
+                bitfieldTypes_.emplace_back(new BitfieldColumnType(name, bitfieldDef));
+                addColumn(name, i, *bitfieldTypes_.back(), hasMissing, missing, true, bitfieldDef);
                 continue;
             }
             default:
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..57d52fb 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -15,7 +15,13 @@
 #ifndef TODATable_H
 #define TODATable_H
 
+#include <memory>
+#include <string>
+#include <vector>
+
 #include "eckit/sql/SQLTable.h"
+#include "eckit/sql/type/SQLBit.h"
+#include "eckit/sql/type/SQLBitfield.h"
 
 #include "odc/Reader.h"
 #include "odc/csv/TextReader.h"
@@ -26,6 +32,29 @@ namespace sql {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// The type of a bitfield column. The types of its fields belong to it, as bitfields of other tables, or of other frames
+/// of the same data, may have fields of the same names at other bits.
+
+class BitfieldColumnType : public eckit::sql::type::SQLBitfield {
+public:
+
+    BitfieldColumnType(const std::string& name, const eckit::sql::BitfieldDef& def);
+
+    /// Take the fields from the definition in the data read now
+    void update(const eckit::sql::BitfieldDef& def) const;
+
+private:  // methods (overrides)
+
+    const eckit::sql::type::SQLType* subType(const std::string& name) const override;
+
+private:  // members
+
+    mutable eckit::sql::BitfieldDef current_;
+    mutable std::vector<std::unique_ptr<eckit::sql::type::SQLBit>> bits_;
+};
+
+//----------------------------------------------------------------------------------------------------------------------
+
 template <typename READER>
 class TODATable : public eckit::sql::SQLTable {
 public:
@@ -64,6 +93,8 @@ private:  // members
 
     // This is a hack. Avoid calling begin() twice on non-seekable DataHandle if possible
     typename READER::iterator readerIterator_;
+
+    std::vector<std::unique_ptr<BitfieldColumnType>> bitfieldTypes_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index b0855d2..4accc66 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -117,6 +117,9 @@ void TODATableIterator<READER>::updateMetaData() {
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
 
+        if (auto bitfield = dynamic_cast<const BitfieldColumnType*>(&col.type()))
+            bitfield->update(md[idx]->bitfieldDef());
+
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
         columnsHaveMissing_.push_back(it_->hasMissing(idx));
-- 
2.43.0


From 5d744188f13f3a3f3b6b095f211cc5d6536131e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 35/71] fix: selecting a column which changes between strings
 and numbers is refused rather than misread

---
 src/odc/sql/TODATableIterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 4accc66..7d54fcc 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -117,6 +117,10 @@ void TODATableIterator<READER>::updateMetaData() {
     for (const eckit::sql::SQLColumn& col : columns_) {
         const size_t idx = columnIndex(col.name(), md);
 
+        if ((col.type().getKind() == eckit::sql::type::SQLType::stringType) != (md[idx]->type() == api::STRING))
+            throw eckit::UserError("Column \"" + col.name() + "\" changes between strings and numbers, but is required " +
+                                       "in SQL request.", Here());
+
         if (auto bitfield = dynamic_cast<const BitfieldColumnType*>(&col.type()))
             bitfield->update(md[idx]->bitfieldDef());
 
-- 
2.43.0


From 9a6befb5439c22d2d94b8a834ccdfdfddab70f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 36/71] fix: a file opened by a writer is closed by it, rather
 than left open until the process ends

---
 src/odc/WriterBufferingIterator.cc | 7 ++++---
 src/odc/WriterBufferingIterator.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 3b713ca..7f18c19 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -50,7 +50,7 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle* dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    closeDataHandle_(true) {
     if (openDataHandle)
         open();
 }
@@ -73,7 +73,7 @@ WriterBufferingIterator::WriterBufferingIterator(Owner& owner, DataHandle& dh, b
     nextRowInBuffer_(0),
     rowsBufferSize_(owner.rowsBufferSize()),
     tableDef_(tableDef),
-    openDataHandle_(openDataHandle) {
+    closeDataHandle_(!openDataHandle) {
     if (openDataHandle)
         open();
 }
@@ -400,7 +400,8 @@ int WriterBufferingIterator::close() {
     if (initialisedColumns_)
         flush();
 
-    if (!openDataHandle_) {
+    if (closeDataHandle_) {
+        closeDataHandle_ = false;
         handle().close();
     }
     return 0;
diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 9ea4365..0e27ebd 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -182,7 +182,7 @@ private:
 
 private:
 
-    bool openDataHandle_;
+    bool closeDataHandle_;  //< Is the data handle ours to close, and not closed yet?
 
     friend class IteratorProxy<WriterBufferingIterator, Owner>;
 };
-- 
2.43.0


From df26f998c71872039cb4572b5dcfd97aa27180ca Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 37/71] fix: importing text keeps empty fields in their column
 and reports lines with the wrong number of fields; blank lines do not end the
 data

---
 src/odc/csv/TextReaderIterator.cc | 51 ++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..6ce6fec 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <sstream>
 
 #include "eckit/filesystem/PathName.h"
 #include "eckit/log/Log.h"
@@ -33,6 +34,25 @@ typedef StringTools S;
 
 namespace odc {
 
+namespace {
+
+// Unlike StringTools::split, does not drop empty fields, which would shift the values that follow into the wrong
+// columns. Only with white space as the delimiter does a run of delimiters separate two fields.
+std::vector<std::string> splitFields(const std::string& delimiter, const std::string& line) {
+    if (delimiter == " ")
+        return S::split(delimiter, line);
+
+    std::vector<std::string> fields;
+    size_t start = 0;
+    for (size_t end; (end = line.find_first_of(delimiter, start)) != std::string::npos; start = end + 1) {
+        fields.push_back(line.substr(start, end - start));
+    }
+    fields.push_back(line.substr(start));
+    return fields;
+}
+
+}  // namespace
+
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
     columns_(0),
     lastValues_(0),
@@ -191,17 +211,32 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // Blank lines hold no data, but do not end it
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
-    std::vector<std::string> values(S::split(delimiter_, line));
+    do {
+        if (!std::getline(*in_, line)) {
+            if (in_->bad()) {
+                throw ReadError("Error reading text input", Here());
+            }
+            noMore_ = true;
+            return false;
+        }
+    } while (S::trim(line).empty());
 
-    size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
+    std::vector<std::string> values(splitFields(delimiter_, line));
+
+    size_t nCols = columns().size();
+
+    // A delimiter which ends the line does not start another field
+    if (values.size() == nCols + 1 && S::trim(values.back()).empty()) {
+        values.pop_back();
+    }
+
+    if (values.size() != nCols) {
+        std::stringstream ss;
+        ss << "Expected " << nCols << " fields, got " << values.size() << " in line '" << line << "'";
+        throw UserError(ss.str(), Here());
     }
-    ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
         const std::string& v(S::trim(values[i]));
-- 
2.43.0


From f0d1d9c9634c474fcd69770d458a7fb8ad776c4a Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 38/71] fix: importing text which is not an integer into an
 integer column is an error rather than 0

---
 src/odc/csv/TextReaderIterator.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 6ce6fec..ff5caa1 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -14,6 +14,9 @@
 /// @author Piotr Kuchta, Oct 2010
 
 #include <algorithm>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 
@@ -51,6 +54,22 @@ std::vector<std::string> splitFields(const std::string& delimiter, const std::st
     return fields;
 }
 
+// Translator<std::string, long> stops at the first character it does not understand
+long parseInteger(const std::string& v) {
+    char* end = nullptr;
+    errno     = 0;
+    long n    = ::strtol(v.c_str(), &end, 10);
+    if (v.empty() || *end != 0 || errno == ERANGE) {
+        // Integers are also exported as, e.g., 3.000000 or 1e6
+        double d = v.empty() ? 0.5 : ::strtod(v.c_str(), &end);
+        if (*end != 0 || d != std::floor(d) || std::fabs(d) >= 9007199254740992.0) {
+            throw UserError("Cannot convert '" + v + "' to an integer", Here());
+        }
+        n = static_cast<long>(d);
+    }
+    return n;
+}
+
 }  // namespace
 
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
@@ -288,7 +307,7 @@ bool TextReaderIterator::next() {
 
                 case api::INTEGER:
                 case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));
+                    lastValues_[columnOffsets_[i]] = static_cast<double>(parseInteger(v));
                     break;
 
                 default:
-- 
2.43.0


From a069ed5abafb1a766c6f7f1d3b6689590ea0dd7c Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 39/71] fix: NULL in a column of long strings no longer keeps
 the end of the string in the row before

---
 src/odc/csv/TextReaderIterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index ff5caa1..0e52bf6 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -261,6 +261,10 @@ bool TextReaderIterator::next() {
         const std::string& v(S::trim(values[i]));
         if (S::upper(v) == "NULL") {
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+            // Nothing is to remain of the string of the row before
+            for (size_t k = 1; k < columns_[i]->dataSizeDoubles(); ++k) {
+                lastValues_[columnOffsets_[i] + k] = 0;
+            }
         }
         else {
             api::ColumnType typ(columns()[i]->type());
-- 
2.43.0


From 9acfa34e409eae8cb4d7a3582e7f2a9721b359f5 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 40/71] fix: importing text treats integers as longs when the
 API was asked to

---
 src/odc/csv/TextReaderIterator.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 0e52bf6..ae2a3b1 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -17,6 +17,7 @@
 #include <cerrno>
 #include <cmath>
 #include <cstdlib>
+#include <cstring>
 #include <fstream>
 #include <sstream>
 
@@ -27,6 +28,7 @@
 #include "eckit/utils/Translator.h"
 
 #include "odc/LibOdc.h"
+#include "odc/ODBAPISettings.h"
 #include "odc/api/ColumnType.h"
 #include "odc/csv/TextReader.h"
 #include "odc/csv/TextReaderIterator.h"
@@ -70,6 +72,15 @@ long parseInteger(const std::string& v) {
     return n;
 }
 
+// Cells of integer columns hold integers when the API was asked to treat them as such
+double integerCell(api::ColumnType type, double value, long integer) {
+    if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {
+        int64_t n = integer;
+        ::memcpy(&value, &n, sizeof(value));
+    }
+    return value;
+}
+
 }  // namespace
 
 TextReaderIterator::TextReaderIterator(TextReader& owner) :
@@ -310,9 +321,11 @@ bool TextReaderIterator::next() {
                     break;
 
                 case api::INTEGER:
-                case api::BITFIELD:
-                    lastValues_[columnOffsets_[i]] = static_cast<double>(parseInteger(v));
+                case api::BITFIELD: {
+                    long n                         = parseInteger(v);
+                    lastValues_[columnOffsets_[i]] = integerCell(typ, static_cast<double>(n), n);
                     break;
+                }
 
                 default:
                     throw SeriousBug("Unexpected type in column", Here());
-- 
2.43.0


From a048b62cbfb80d3fc22405ef186b209420a2a9be Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 41/71] fix: a bitfield of no bits in the header of a text is
 reported

---
 src/odc/csv/TextReaderIterator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index ae2a3b1..dad125b 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -155,10 +155,10 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         names.push_back(v[0]);
 
-        int size = atoi(v[1].c_str());
+        long size = parseInteger(S::trim(v[1]));
 
-        if (!(v.size() > 0))
-            throw UserError("Size of a bitfield must be positive and larger than zero");
+        if (!(size > 0 && size <= 31))
+            throw UserError("Size of a bitfield must be positive, and no larger than 31");
 
         numberOfBits += size;
         sizes.push_back(size);
-- 
2.43.0


From a562ffdf24a28bd1f87e06ed8cd591bf5fef05e3 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 42/71] fix: text which cannot be opened is reported rather
 than read as no rows

---
 src/odc/csv/TextReader.cc         | 17 ++++++++++++++++-
 src/odc/csv/TextReaderIterator.cc |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReader.cc b/src/odc/csv/TextReader.cc
index fd7069a..2ae7503 100644
--- a/src/odc/csv/TextReader.cc
+++ b/src/odc/csv/TextReader.cc
@@ -12,6 +12,9 @@
 #include "odc/csv/TextReader.h"
 
 #include <fstream>
+#include <memory>
+
+#include "eckit/exception/Exceptions.h"
 
 #include "odc/csv/TextReaderIterator.h"
 
@@ -25,8 +28,20 @@ TextReader::TextReader(std::istream& input, const std::string& delimiter) :
     in_(&input), deleteDataHandle_(false), delimiter_(delimiter), iteratorSingleton_(new TextReaderIterator(*this)) {}
 
 
+namespace {
+
+std::istream* openText(const std::string& path) {
+    std::unique_ptr<std::ifstream> in(new std::ifstream(path.c_str()));
+    if (!*in) {
+        throw CantOpenFile(path);
+    }
+    return in.release();
+}
+
+}  // namespace
+
 TextReader::TextReader(const std::string& path, const std::string& delimiter) :
-    in_(new std::ifstream(path.c_str())),
+    in_(openText(path)),
     deleteDataHandle_(true),
     delimiter_(delimiter),
     iteratorSingleton_(new TextReaderIterator(*this)) {}
diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index dad125b..b55c417 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -114,6 +114,10 @@ TextReaderIterator::TextReaderIterator(TextReader& owner, const PathName& pathNa
     refCount_(0) {
     in_ = new std::ifstream(pathName.localPath());
     ASSERT(in_);
+    if (!*in_) {
+        delete in_;
+        throw CantOpenFile(pathName);
+    }
     ownsF_ = true;
     parseHeader();
     next();
-- 
2.43.0


From bef0b4dc033481fe54bf96c5e475597aa189cd2d Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 43/71] fix: the delimiter given to the import tool is used
 when there is no SQL

---
 src/odc/tools/ImportTool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..0bf7400 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -68,8 +68,9 @@ void ImportTool::run() {
 
     Log::info() << "ImportTool::run: inFile: " << inFile << ", outFile: " << outFile << std::endl;
 
-    std::string delimiter(StringTools::upper(optionArgument("-d", defaultDelimiter())));
-    delimiter = delimiter == "TAB" ? "\t" : delimiter == "SPACE" ? " " : delimiter;
+    std::string delimiter(optionArgument("-d", defaultDelimiter()));
+    std::string name(StringTools::upper(delimiter));
+    delimiter = name == "TAB" ? "\t" : name == "SPACE" ? " " : delimiter;
 
     std::string sql(optionArgument("-sql", std::string("select *;")));
 
@@ -80,7 +81,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From c2a447b0ff69357543727d4ebf8800891bddacbc Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 44/71] fix: null pointers given to the C interface are
 reported as errors

---
 src/odc/api/odc.cc | 56 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index af6a433..cb7add9 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -178,11 +178,17 @@ extern "C" {
 // Types for lookup
 
 int odc_column_type_count(int* count) {
-    return wrapApiFunction([count] { (*count) = NUM_TYPES; });
+    return wrapApiFunction([count] {
+        ASSERT(count);
+        (*count) = NUM_TYPES;
+    });
 }
 
 int odc_column_type_name(int type, const char** type_name) {
-    return wrapApiFunction([type, type_name] { (*type_name) = columnTypeName(static_cast<ColumnType>(type)); });
+    return wrapApiFunction([type, type_name] {
+        ASSERT(type_name);
+        (*type_name) = columnTypeName(static_cast<ColumnType>(type));
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -260,11 +266,17 @@ int odc_set_missing_double(double missing_double) {
 }
 
 int odc_version(const char** version) {
-    return wrapApiFunction([version] { (*version) = Settings::version().c_str(); });
+    return wrapApiFunction([version] {
+        ASSERT(version);
+        (*version) = Settings::version().c_str();
+    });
 }
 
 int odc_vcs_version(const char** sha1) {
-    return wrapApiFunction([sha1] { (*sha1) = Settings::gitsha1().c_str(); });
+    return wrapApiFunction([sha1] {
+        ASSERT(sha1);
+        (*sha1) = Settings::gitsha1().c_str();
+    });
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -274,12 +286,15 @@ int odc_vcs_version(const char** sha1) {
 int odc_open_path(odc_reader_t** reader, const char* filename) {
     return wrapApiFunction([reader, filename] {
         //        ASSERT(!(*reader));
+        ASSERT(reader);
+        ASSERT(filename);
         (*reader) = new odc_reader_t(PathName(filename).fileHandle());
     });
 }
 
 int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
     return wrapApiFunction([reader, fd] {
+        ASSERT(reader);
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
@@ -290,7 +305,12 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
 }
 
 int odc_open_buffer(odc_reader_t** reader, const void* data, long length) {
-    return wrapApiFunction([reader, data, length] { (*reader) = new odc_reader_t(new MemoryHandle(data, length)); });
+    return wrapApiFunction([reader, data, length] {
+        ASSERT(reader);
+        ASSERT(length >= 0);
+        ASSERT(data || length == 0);
+        (*reader) = new odc_reader_t(new MemoryHandle(data, length));
+    });
 }
 
 int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t stream_proc) {
@@ -339,8 +359,11 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Offset position_ = 0;
     };
 
-    return wrapApiFunction(
-        [reader, handle, stream_proc] { (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc)); });
+    return wrapApiFunction([reader, handle, stream_proc] {
+        ASSERT(reader);
+        ASSERT(stream_proc);
+        (*reader) = new odc_reader_t(new ReadStreamDataHandle(handle, stream_proc));
+    });
 }
 
 int odc_close(const odc_reader_t* reader) {
@@ -358,6 +381,7 @@ int odc_close(const odc_reader_t* reader) {
 
 int odc_new_frame(odc_frame_t** frame, odc_reader_t* reader) {
     return wrapApiFunction([frame, reader] {
+        ASSERT(frame);
         ASSERT(reader);
         (*frame) = new odc_frame_t{*reader, false, {}, {}};
     });
@@ -526,7 +550,10 @@ int odc_frame_property(const odc_frame_t* frame, const char* key, const char** v
 /* Decode functionality */
 
 int odc_new_decoder(odc_decoder_t** decoder) {
-    return wrapApiFunction([decoder] { (*decoder) = new odc_decoder_t; });
+    return wrapApiFunction([decoder] {
+        ASSERT(decoder);
+        (*decoder) = new odc_decoder_t;
+    });
 }
 
 int odc_free_decoder(const odc_decoder_t* decoder) {
@@ -839,7 +866,10 @@ int odc_decode(odc_decoder_t* decoder, const odc_frame_t* frame, long* rows_deco
 /* Encode functionality */
 
 int odc_new_encoder(odc_encoder_t** encoder) {
-    return wrapApiFunction([encoder] { (*encoder) = new odc_encoder_t; });
+    return wrapApiFunction([encoder] {
+        ASSERT(encoder);
+        (*encoder) = new odc_encoder_t;
+    });
 }
 
 int odc_free_encoder(const odc_encoder_t* encoder) {
@@ -849,6 +879,8 @@ int odc_free_encoder(const odc_encoder_t* encoder) {
 int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char* value) {
     return wrapApiFunction([encoder, key, value] {
         ASSERT(encoder);
+        ASSERT(key);
+        ASSERT(value);
         encoder->properties[key] = value;
     });
 }
@@ -895,6 +927,7 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
 int odc_encoder_add_column(odc_encoder_t* encoder, const char* name, int type) {
     return wrapApiFunction([encoder, name, type] {
         ASSERT(encoder);
+        ASSERT(name);
         encoder->columnInfo.emplace_back(ColumnInfo{std::string(name), ColumnType(type), {}, {}});
         encoder->columnData.emplace_back(odc_encoder_t::EncodeColumn{0, 0});
     });
@@ -924,6 +957,7 @@ int odc_encoder_column_set_data_array(odc_encoder_t* encoder, int col, int eleme
 int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char* name, int nbits) {
     return wrapApiFunction([encoder, col, name, nbits] {
         ASSERT(encoder);
+        ASSERT(name);
         ASSERT(col >= 0 && size_t(col) < encoder->columnInfo.size());
 
         size_t offset;
@@ -1094,6 +1128,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
     };
 
     return wrapApiFunction([encoder, handle, write_fn, bytes_encoded] {
+        ASSERT(write_fn);
+        ASSERT(bytes_encoded);
         WriteStreamDataHandle dh(handle, write_fn);
         dh.openForWrite(0);
         AutoClose closer(dh);
@@ -1131,6 +1167,8 @@ int odc_encode_to_file_descriptor(odc_encoder_t* encoder, int fd, long* bytes_en
 
 int odc_encode_to_buffer(odc_encoder_t* encoder, void* buffer, long length, long* bytes_encoded) {
     return wrapApiFunction([encoder, buffer, length, bytes_encoded] {
+        ASSERT(buffer);
+        ASSERT(length >= 0);
         MemoryHandle dh(buffer, length);
         dh.openForWrite(0);
         AutoClose closer(dh);
-- 
2.43.0


From 90aa0b047ac30aafa67dd91926889e54e04721be Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 45/71] fix: a file descriptor which cannot be duplicated is
 reported

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index cb7add9..6d3a782 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -298,7 +298,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From b647c2bdb94aa184f600fa68287ae55f172a2ad0 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 46/71] fix: negative counts and sizes given to the C interface
 are reported as errors

---
 src/odc/api/odc.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 6d3a782..ecad33c 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -588,6 +588,7 @@ int odc_decoder_set_column_major(odc_decoder_t* decoder, bool columnMajor) {
 int odc_decoder_set_row_count(odc_decoder_t* decoder, long nrows) {
     return wrapApiFunction([decoder, nrows] {
         ASSERT(decoder);
+        ASSERT(nrows >= 0);
         decoder->nrows = nrows;
     });
 }
@@ -673,6 +674,7 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
         ASSERT(element_size >= 0);
+        ASSERT(stride >= 0);
 
         auto& cd(decoder->columnData[col]);
         cd.elemSize  = element_size;
@@ -888,6 +890,7 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
+        ASSERT(nrows >= 0);
         encoder->nrows = nrows;
     });
 }
@@ -895,6 +898,7 @@ int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
 int odc_encoder_set_rows_per_frame(odc_encoder_t* encoder, long rows_per_frame) {
     return wrapApiFunction([encoder, rows_per_frame] {
         ASSERT(encoder);
+        ASSERT(rows_per_frame > 0);
         encoder->maxRowsPerFrame = rows_per_frame;
     });
 }
@@ -904,6 +908,9 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
     return wrapApiFunction([encoder, data, width, height, columnMajorWidth] {
         ASSERT(encoder);
 
+        ASSERT(width >= 0);
+        ASSERT(height >= 0);
+
         // If we are setting this _again_ then this is because a configured encoder
         // is being reused. Make sure that we rezero things that should be rezeroed.
 
@@ -969,6 +976,7 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
             offset = ci.bitfield.back().offset + ci.bitfield.back().size;
         }
 
+        ASSERT(nbits > 0);
         ASSERT(offset + nbits <= 32);
         ci.bitfield.emplace_back(ColumnInfo::Bit{name, nbits, int(offset)});
     });
-- 
2.43.0


From 74e1e9177bebff242788fba0c2b8a4670649fbd4 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 47/71] fix: an encoder given another array encodes all of its
 rows, rather than as many as the array before had

---
 src/odc/api/odc.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index ecad33c..29be349 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -76,7 +76,13 @@ struct odc_decoder_t {
 struct odc_encoder_t {
 
     odc_encoder_t() :
-        arrayData(0), columnMajorWidth(0), nrows(0), arrayWidth(0), arrayHeight(0), maxRowsPerFrame(10000) {}
+        arrayData(0),
+        columnMajorWidth(0),
+        nrows(0),
+        nrowsFromArray(false),
+        arrayWidth(0),
+        arrayHeight(0),
+        maxRowsPerFrame(10000) {}
 
     struct EncodeColumn {
         const void* data;
@@ -87,6 +93,7 @@ struct odc_encoder_t {
     int columnMajorWidth;
 
     size_t nrows;
+    bool nrowsFromArray;  // n.b. no row count has been set explicitly
     size_t arrayWidth;
     size_t arrayHeight;
     size_t maxRowsPerFrame;
@@ -891,7 +898,8 @@ int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
         ASSERT(nrows >= 0);
-        encoder->nrows = nrows;
+        encoder->nrows          = nrows;
+        encoder->nrowsFromArray = false;
     });
 }
 
@@ -926,8 +934,10 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
         encoder->columnMajorWidth = columnMajorWidth;
-        if (encoder->nrows == 0)
-            encoder->nrows = height;
+        if (encoder->nrows == 0 || encoder->nrowsFromArray) {
+            encoder->nrows          = height;
+            encoder->nrowsFromArray = true;
+        }
     });
 }
 
-- 
2.43.0


From c19de5cedcd1610a52aa0611c3f6806bf2f14d60 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 48/71] fix: encoding does not leave pointers and strides
 behind in the encoder

---
 src/odc/api/odc.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 29be349..e1b3adb 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -992,10 +992,12 @@ int odc_encoder_column_add_bitfield(odc_encoder_t* encoder, int col, const char*
     });
 }
 
-void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>>& transposedData) {
+// n.b. The layout of the data is worked out for one encoding, and does not stay in the encoder, which may be reused
+void fill_in_encoder(odc_encoder_t* encoder, std::vector<odc_encoder_t::EncodeColumn>& columnData,
+                     std::vector<std::unique_ptr<char[]>>& transposedData) {
 
     ASSERT(encoder->nrows > 0);
-    ASSERT(encoder->columnData.size() == encoder->columnInfo.size());
+    ASSERT(columnData.size() == encoder->columnInfo.size());
 
     size_t decodedWidth = 0;
     for (auto& info : encoder->columnInfo) {
@@ -1029,8 +1031,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
         //      and split across multiple columns. Need to aggregate it for encoding.
 
         size_t offset = 0;
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             ASSERT(info.decodedSize != 0);
@@ -1075,8 +1077,8 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
 
         // We are constructing the data with a supplied structure per column
 
-        for (size_t i = 0; i < encoder->columnData.size(); ++i) {
-            odc_encoder_t::EncodeColumn& c(encoder->columnData[i]);
+        for (size_t i = 0; i < columnData.size(); ++i) {
+            odc_encoder_t::EncodeColumn& c(columnData[i]);
             const ColumnInfo& info(encoder->columnInfo[i]);
 
             // If no stride is supplied for a column, assume that it is densely packed
@@ -1102,9 +1104,10 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     // TransposedData allows column-oriented data to be reordered before encoding if needed.
     std::vector<std::unique_ptr<char[]>> transposedData;
-    fill_in_encoder(encoder, transposedData);
+    std::vector<odc_encoder_t::EncodeColumn> columnData(encoder->columnData);
+    fill_in_encoder(encoder, columnData, transposedData);
 
-    size_t ncolumns = encoder->columnData.size();
+    size_t ncolumns = columnData.size();
     ASSERT(ncolumns > 0);
 
     std::vector<ConstStridedData> stridedData;
@@ -1113,7 +1116,7 @@ void odc_encode_to_data_handle(odc_encoder_t* encoder, eckit::DataHandle& dh) {
 
     for (size_t i = 0; i < ncolumns; i++) {
         const ColumnInfo& info{encoder->columnInfo[i]};
-        const odc_encoder_t::EncodeColumn& c{encoder->columnData[i]};
+        const odc_encoder_t::EncodeColumn& c{columnData[i]};
         stridedData.emplace_back(ConstStridedData{c.data, encoder->nrows, info.decodedSize, c.stride});
     }
 
-- 
2.43.0


From 252daedcccf7348e4b7317ffbec7cf40e942d27e Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 49/71] fix: a failed read is reported, rather than taken for
 the end of the data

---
 src/odc/core/Header.cc                 | 4 +++-
 src/odc/core/ThreadSharedDataHandle.cc | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 68c82c4..73c5adb 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -39,8 +39,10 @@ bool Header::readMagic(DataHandle& dh) {
     eckit::FixedString<5> magic;
 
     long bytesRead = dh.read(&magic, sizeof(magic));
-    if (bytesRead == 0 || bytesRead == EOF)
+    if (bytesRead == 0)
         return false;
+    if (bytesRead < 0)
+        throw ReadError(dh.title(), Here());
     if (bytesRead != sizeof(magic))
         throw ODBIncomplete(dh.title(), Here());
     if (magic != "\xff\xffODA")
diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..4c40f19 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -99,6 +99,10 @@ long ThreadSharedDataHandle::read(void* buffer, long length) {
     }
 
     long delta = internal_->dh_->read(buffer, length);
+    if (delta < 0) {
+        // n.b. Must not be mistaken for the end of the data
+        throw eckit::ReadError(internal_->dh_->title(), Here());
+    }
     position_ += delta;
     return delta;
 }
-- 
2.43.0


From 33ecce30145e821b7b1a8d0b8b5e3ca63d109157 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 50/71] fix: reading can be repeated after an error, without
 skipping frames

---
 src/odc/api/Odb.cc           | 23 +++++++++++++++--------
 src/odc/core/TablesReader.cc |  7 ++-----
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index f7e507c..12b2bcb 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -126,22 +126,27 @@ Frame ReaderImpl::next() {
 
     std::vector<core::Table> tables;
 
-    if (it_ == tablesReader_.end())
+    // n.b. We only move on once everything has been read, such that after an error nothing is skipped
+
+    auto it = it_;
+
+    if (it == tablesReader_.end())
         return Frame();
 
     if (!first_) {
-        ++it_;
-        if (it_ == tablesReader_.end())
+        ++it;
+        if (it == tablesReader_.end()) {
+            it_ = it;
             return Frame();
+        }
     }
 
-    first_ = false;
-    tables.emplace_back(*it_);
+    tables.emplace_back(*it);
     long nrows = tables.back().rowCount();
 
     if (aggregated_) {
         while (true) {
-            auto it_next = it_;
+            auto it_next = it;
             ++it_next;
             if (it_next == tablesReader_.end())
                 break;
@@ -152,13 +157,15 @@ Frame ReaderImpl::next() {
             if (!tables.front().columns().compatible(it_next->columns()))
                 break;
 
-            ++it_;
-            tables.emplace_back(*it_);
+            ++it;
+            tables.emplace_back(*it);
             nrows = next_nrows;
         }
     }
 
     ASSERT(rowlimit_ < 0 || nrows <= rowlimit_);
+    it_    = it;
+    first_ = false;
     return Frame(std::unique_ptr<FrameImpl>(new FrameImpl(std::move(tables))));
 }
 
diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 88e274b..42bdcd5 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -39,11 +39,8 @@ bool ReadTablesIterator::operator==(const ReadTablesIterator& other) {
 
 ReadTablesIterator& ReadTablesIterator::operator++() {
 
-    ++pos_;
-
-    if (!owner_.get().ensureTable(pos_)) {
-        pos_ = -1;
-    }
+    // n.b. If the next table cannot be read, we stay where we are
+    pos_ = owner_.get().ensureTable(pos_ + 1) ? pos_ + 1 : -1;
 
     return *this;
 }
-- 
2.43.0


From 442284e710b7c517c7b80b8847d9a751a865836a Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 51/71] fix: odc set finds columns by their offsets, as strings
 can be wider than a double

---
 src/odc/ODAUpdatingIterator.cc | 48 ++++++++++++++++++++++++----------
 src/odc/ODAUpdatingIterator.h  |  7 ++---
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..959c5e8 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -13,6 +13,8 @@
 ///
 /// @author Piotr Kuchta, June 2009
 
+#include <algorithm>
+
 #include "odc/core/MetaData.h"
 
 namespace odc {
@@ -23,15 +25,21 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ii_(ii),
     end_(end),
     columns_(columns),
-    columnIndices_(columns.size()),
+    columnOffsets_(columns.size()),
+    columnSizes_(columns.size()),
     values_(values),
-    data_(0),
+    data_(),
     refCount_(0),
     noMore_(false) {
     ASSERT(columns.size() == values.size());
 
+    if (!(ii_ != end_)) {
+        noMore_ = true;
+        return;
+    }
+
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+    std::copy(ii_->data(), ii_->data() + data_.size(), data_.begin());
     update();
 }
 
@@ -39,26 +47,38 @@ template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
-    delete[] data_;
-    data_ = new double[md.size()];
+    // n.b. Columns of strings can be wider than one double, so columns are found by their offsets
+
+    std::vector<size_t> offsets;
+    size_t rowSize = 0;
+    for (size_t i = 0; i < md.size(); ++i) {
+        offsets.push_back(rowSize);
+        rowSize += md[i]->dataSizeDoubles();
+    }
 
-    for (size_t i = 0; i < columns_.size(); ++i)
-        columnIndices_[i] = md.columnIndex(columns_[i]);
+    data_.resize(rowSize);
+
+    for (size_t i = 0; i < columns_.size(); ++i) {
+        size_t index      = md.columnIndex(columns_[i]);
+        columnOffsets_[i] = offsets[index];
+        columnSizes_[i]   = md[index]->dataSizeDoubles();
+    }
 }
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), columnOffsets_(), columnSizes_(), values_(), data_(), refCount_(0), noMore_(true) {}
 
 template <typename T>
-ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
-    delete[] data_;
-}
+ODAUpdatingIterator<T>::~ODAUpdatingIterator() {}
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnOffsets_.size(); ++i) {
+        auto first = data_.begin() + columnOffsets_[i];
+        std::fill(first, first + columnSizes_[i], 0);
+        *first = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,7 +96,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + data_.size(), data_.begin());
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..e43a811 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -32,7 +32,7 @@ public:
     ~ODAUpdatingIterator();
 
     bool isNewDataset();
-    double* data() { return data_; }
+    double* data() { return data_.data(); }
 
     const core::MetaData& columns() { return ii_->columns(); }
     const core::MetaData& columns(core::MetaData& md) { return ii_->columns(md); }
@@ -64,10 +64,11 @@ private:
     const T& end_;
 
     std::vector<std::string> columns_;
-    std::vector<size_t> columnIndices_;
+    std::vector<size_t> columnOffsets_;
+    std::vector<size_t> columnSizes_;
     const std::vector<double> values_;
 
-    double* data_;
+    std::vector<double> data_;
 
 public:
 
-- 
2.43.0


From e15e64fca6953d65f15605247b01456ab9bd660f Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 52/71] fix: odc merge copies all of long strings, and follows
 its inputs when their columns change

---
 src/odc/WriterBufferingIterator.h |  6 ++--
 src/odc/tools/MergeTool.cc        | 50 +++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 0e27ebd..8d8b15a 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -119,6 +119,9 @@ public:
             flush();
     }
 
+    /// Can rows with the given columns go on in the same frame?
+    bool sameColumns(const core::MetaData& md) const;
+
     std::vector<eckit::PathName> outputFiles();
     bool next();
 
@@ -130,9 +133,6 @@ private:
 
     size_t rowDataSizeDoublesInternal() const;
 
-    /// Can rows with the given columns go on in the same frame?
-    bool sameColumns(const core::MetaData& md) const;
-
 public:
 
     int refCount_;
diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ec71784..1ffced9 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,9 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <algorithm>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -73,29 +76,36 @@ void MergeTool::run() {
         merge(inputFiles_, sql_, outputFile_);
 }
 
-template <typename T, typename I>
-void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
-    odc::Writer<> writer(outputFile);
-    odc::Writer<>::iterator out(writer.begin());
+/// The columns of the rows the inputs are at, one input after the other
+template <typename I>
+MetaData mergedColumns(std::vector<std::pair<I, I>>& iterators) {
+    MetaData md(0);
 
     for (size_t i = 0; i < iterators.size(); ++i) {
         MetaData columns(iterators[i].first->columns());
 
         for (size_t i = 0; i < columns.size(); ++i)
-            if (out->columns().hasColumn(columns[i]->name()))
+            if (md.hasColumn(columns[i]->name()))
                 throw eckit::UserError(std::string("Column '") + columns[i]->name() +
                                        "' occurs in more than one input file of merge.");
-        MetaData md(out->columns());
         md += columns;
-        out->columns(md);
-        // out->columns() += columns;
     }
+    return md;
+}
 
+template <typename T, typename I>
+void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile) {
+    odc::Writer<> writer(outputFile);
+    odc::Writer<>::iterator out(writer.begin());
+
+    out->columns(mergedColumns(iterators));
     out->writeHeader();
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
-    for (;;) {
-        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+    for (bool first = true;; first = false) {
+
+        bool newColumns = false;
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
             I& inEnd(iterators[ii].second);
             if (!(in != inEnd)) {
@@ -104,10 +114,26 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
                 (**out).close();
                 return;
             }
+            newColumns = newColumns || (!first && in->isNewDataset());
+        }
+
+        // The columns of an input, or the widths of its strings, may change between its frames
+        if (newColumns) {
+            MetaData md(mergedColumns(iterators));
+            if (!(**out).sameColumns(md)) {
+                out->columns(md);
+                out->writeHeader();
+            }
+        }
+
+        size_t i = 0;
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
+            for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                const double* value = &(*in)[cn];
+                std::copy(value, value + in->columns()[cn]->dataSizeDoubles(), &out->data(i));
             }
             ++in;
         }
-- 
2.43.0


From 90d070d572eba5a688296284be50edb786228f55 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 53/71] fix: odc compact and fixrowsize do not refuse files
 some frames of which have missing values

---
 src/odc/tools/CompactTool.cc      | 3 ++-
 src/odc/tools/FixedSizeRowTool.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..e63d728 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,8 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    // n.b. Whether a frame has missing values depends on how the rows are split into frames, which is not compared
+    odc::Comparator comparator(true);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..dda9047 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,8 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    // n.b. Whether a frame has missing values depends on how the rows are split into frames, which is not compared
+    odc::Comparator comparator(true);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From b0314c1c2e85b60546bbd66db0e9d6e7a045ece0 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 54/71] fix: odc mdset reports failed writes, and accepts
 blanks around the names of columns and types

---
 src/odc/tools/MDSetTool.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..0ba5795 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -51,6 +51,11 @@ void MDSetTool::usage(const std::string& name, std::ostream& o) {
 
 MDSetTool::MDSetTool(int argc, char* parameters[]) : Tool(argc, parameters) {}
 
+static void write(DataHandle& out, const void* data, long length) {
+    if (out.write(data, length) != length)
+        throw WriteError(out.title(), Here());
+}
+
 void MDSetTool::run() {
     if (parameters().size() != 4) {
         Log::error() << "Usage: ";
@@ -104,17 +109,19 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            write(*outHandle, encodedHeader.first, encodedHeader.second);
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        write(*outHandle, encodedData.data(), sizeOfEncodedData);
     }
+
+    outHandle->close();
 }
 
 //
@@ -128,8 +135,8 @@ void MDSetTool::parseUpdateList(const std::string& s, std::vector<std::string>&
         vector<string> assignment(S::split("=", assignments[i]));
         string value(assignment.size() == 2 ? assignment[1] : "NONE");
         vector<string> columnNameAndType(S::split(":", assignment[0]));
-        string type(columnNameAndType.size() == 2 ? columnNameAndType[1] : "NONE");
-        string column(columnNameAndType[0]);
+        string type(columnNameAndType.size() == 2 ? S::trim(columnNameAndType[1]) : "NONE");
+        string column(S::trim(columnNameAndType[0]));
 
         eckit::sql::BitfieldDef bf;
         if (type.size() && type[0] == '[' && type[type.size() - 1] == ']') {
-- 
2.43.0


From 0eaacaa62c819fec07f29917ec92cedf71cfc64c Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 55/71] fix: odc ls prints integers which do not fit 32 bits

---
 src/odc/tools/LSTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/LSTool.cc b/src/odc/tools/LSTool.cc
index 5da0829..b01c286 100644
--- a/src/odc/tools/LSTool.cc
+++ b/src/odc/tools/LSTool.cc
@@ -60,7 +60,7 @@ unsigned long long LSTool::printData(const std::string& db, std::ostream& out) {
                             out << ".";
                         }
                         else {
-                            out << static_cast<int>((*it)[i]);
+                            out << static_cast<int64_t>((*it)[i]);
                         }
                         break;
                     case odc::api::REAL:
-- 
2.43.0


From f17c6e86af7a955a9cc587ca03ec5d2ab785e72a Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 56/71] fix: odc ls and xyv report when their output cannot be
 written

---
 src/odc/tools/LSTool.cc  | 5 +++++
 src/odc/tools/XYVTool.cc | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/odc/tools/LSTool.cc b/src/odc/tools/LSTool.cc
index b01c286..a708cea 100644
--- a/src/odc/tools/LSTool.cc
+++ b/src/odc/tools/LSTool.cc
@@ -104,6 +104,11 @@ void LSTool::run() {
 
     unsigned long long n = 0;
     n                    = printData(db, *out);
+
+    out->flush();
+    if (!*out)
+        throw WriteError("Could not write the output", Here());
+
     Log::info() << "Selected " << n << " row(s)." << std::endl;
 }
 
diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index f32966e..e377f95 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -58,6 +58,8 @@ void XYVTool::run() {
         out << (*it)[0] << "\t" << (*it)[1] << "\t" << (*it)[2] << std::endl;
     }
     out.close();
+    if (!out)
+        throw WriteError(outputFile, Here());
 }
 
 }  // namespace tool
-- 
2.43.0


From 9bf4f9f5a141e7a036eb51306f72b92771a3c52c Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 57/71] fix: odc sql -offset and -length select a part of the
 file, when either is left out or zero

---
 src/odc/tools/SQLTool.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..b552f89 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -123,10 +123,13 @@ void SQLTool::run() {
             NOTIMP;  // Is this working?
             /// parser.parseString(session, sql, &fh, config);
         }
-        else if (offset_ == eckit::Offset(0)) {
+        else if (offset_ == eckit::Offset(0) && length_ == eckit::Length(0)) {
             implicitTableDH.reset(new FileHandle(inputFile_));
         }
         else {
+            // n.b. Without a length, everything from the offset on
+            if (length_ == eckit::Length(0))
+                length_ = PathName(inputFile_).size() - eckit::Length(offset_);
             implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length_));
         }
 
-- 
2.43.0


From 8fd495318ab7de8e72544c7e1c4d9ec7d76dba18 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 58/71] fix: odc sql reports when its text output cannot be
 written

---
 src/odc/tools/SQLTool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index b552f89..caf5493 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -145,6 +145,12 @@ void SQLTool::run() {
     eckit::sql::SQLParser parser;
     parser.parseString(session, sql);
     session.statement().execute();
+
+    if (outStream) {
+        outStream->close();
+        if (!*outStream)
+            throw WriteError(optionArgument("-o", std::string("")), Here());
+    }
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e8d3e05093cc0a48049cb5d60fe5e7d4193b5b73 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 59/71] fix: odc index does not open its input twice, which
 failed always

---
 src/odc/Indexer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..c2c2d27 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -77,13 +77,12 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Length blockLength(offsets[i].second);
 
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
+        odc::Select in("select seqno;", h);  // n.b. this opens the handle
         AutoClose closer(h);
 
         int prevSeqno(-1);
         int nRows(0);
 
-        odc::Select in("select seqno;", h);
         for (odc::Select::iterator it(in.begin()), end(in.end()); it != end; ++it) {
             int seqno((*it)[0]);
             if (seqno == prevSeqno)
-- 
2.43.0


From 98aacceee26563f8908dd6e3fa73034e4bf69200 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 60/71] fix: equal infinite values are not reported as
 different

---
 src/odc/Comparator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..17a22ca 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -77,7 +77,8 @@ public:
         return relativeError;
     }
 
-    inline static int same(double A, double B) { return err(A, B) < maxRelativeError; }
+    // n.b. infinite values have no difference
+    inline static int same(double A, double B) { return A == B || err(A, B) < maxRelativeError; }
 
     void raiseNotEqual(const core::Column&, double, double);
 
-- 
2.43.0


From 5cbc4d71f1bb8a9b8b903b000927bd6d699a9e33 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 61/71] fix: the size of a row is known after columns are
 redefined wider

---
 src/odc/WriterBufferingIterator.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 7f18c19..7b24b45 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -175,10 +175,9 @@ void WriterBufferingIterator::writeHeader() {
     // n.b. if zero, this is no problem as we allocate the buffer lazily in writeRow
 
     if (rowsBuffer_.size() != 0 && rowByteSize_ < rowDataSizeDoublesInternal() * sizeof(double)) {
-        rowDataSizeDoubles_ = 0;
-        rowByteSize_        = 0;
-        rowsBuffer_         = eckit::Buffer(0);
-        nextRowInBuffer_    = nullptr;
+        rowByteSize_     = 0;
+        rowsBuffer_      = eckit::Buffer(0);
+        nextRowInBuffer_ = nullptr;
     }
 
     for (size_t i = 0; i < columns_.size(); ++i) {
-- 
2.43.0


From 11495d691c032b67d5eee2f41e417d2f9eea30d1 Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 62/71] fix: odb_create_select_iterator_from_file returns
 errors like odb_create_select_iterator

---
 src/odc/odccapi.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..64e6e6c 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -233,13 +233,9 @@ oda_select_iterator_ptr odb_create_select_iterator(oda_ptr co, const char* sql,
 
 oda_select_iterator_ptr odb_create_select_iterator_from_file(oda_ptr co, const char* sql, const char* filename,
                                                              int* err) {
-    Select* o(reinterpret_cast<Select*>(co));
-
     std::string full_sql(std::string(sql) + " from \"" + std::string(filename) + "\"");
 
-    SelectIterator* iter(o->createSelectIterator(full_sql));
-    *err = !iter;
-    return oda_select_iterator_ptr(iter);
+    return odb_create_select_iterator(co, full_sql.c_str(), err);
 }
 
 
-- 
2.43.0


From 7527f27e3f3eeff30c0678a758dc6edb6412463d Mon Sep 17 00:00:00 2001
From: w <a@b>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 63/71] fix: the missing value of the column after the last is
 refused

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 64e6e6c..ae20360 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -447,7 +447,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -504,7 +504,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || long(r->columns().size()) <= index) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From 73aa873bb1e65a291e8af561218b06c4e6537bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 64/71] fix: encoding frames of no rows is refused instead of
 never ending

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 12b2bcb..034b1be 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -671,6 +671,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
 
     ASSERT(columns.size() == data.size());
     ASSERT(data.size() > 0);
+    ASSERT(maxRowsPerFrame > 0);
 
     size_t ncols = data.size();
     size_t nrows = data[0].nelem();
-- 
2.43.0


From b944abea0b296b64e42a61289666a14b6ee2a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 65/71] fix: optional arguments of the Fortran interface do not
 keep the values of earlier calls

---
 src/odc/api/odc.f90 | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index dba8aec..0a36ee0 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -726,9 +726,11 @@ contains
         integer(c_long), intent(in), optional :: maximum_rows
         integer :: err
 
-        integer(c_long) :: l_maximum_rows = -1
-        logical :: l_aggregated = .false.
+        integer(c_long) :: l_maximum_rows
+        logical :: l_aggregated
 
+        l_maximum_rows = -1
+        l_aggregated = .false.
         if (present(aggregated)) l_aggregated = aggregated
         if (present(maximum_rows)) then
             l_maximum_rows = maximum_rows
@@ -876,7 +878,8 @@ contains
         class(odc_decoder), intent(inout) :: decoder
         logical, intent(in), optional :: column_major
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         err = odc_new_decoder(decoder%impl)
         if (err == ODC_SUCCESS) then
@@ -916,8 +919,9 @@ contains
         real(dp), intent(inout), target :: data(:,:)
         logical, intent(in), optional :: column_major
         integer(c_long) :: width, height
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
         integer :: err
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -992,9 +996,12 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(stride)) l_stride = stride
         if (present(data)) l_data = data
@@ -1075,8 +1082,9 @@ contains
         integer(c_long) :: width, height
         integer(c_int) :: columnMajorWidth
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
 
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -1121,7 +1129,8 @@ contains
         integer :: err
 
 
-        integer(c_int) :: l_element_size = 0
+        integer(c_int) :: l_element_size
+        l_element_size = 0
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
 
@@ -1138,9 +1147,12 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
         if (present(stride)) l_stride = stride
-- 
2.43.0


From a1f7c2bda7bb217c0a619e01d5494f266bc6c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 66/71] fix: arrays which are not contiguous are refused by the
 Fortran interface

---
 src/odc/api/odc.f90 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 0a36ee0..a1abe5a 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -921,6 +921,10 @@ contains
         integer(c_long) :: width, height
         logical(c_bool) :: l_column_major
         integer :: err
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
         l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
@@ -1084,6 +1088,10 @@ contains
         integer :: err
         logical(c_bool) :: l_column_major
 
+        if (.not. is_contiguous(data)) then
+            err = ODC_ERROR_GENERAL_EXCEPTION
+            return
+        end if
         l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
-- 
2.43.0


From 1e481c503c1d5b9a85bbd779abdf536111801a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 67/71] fix: failed writes to a Fortran unit are returned as
 errors

---
 src/odc/api/odc.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index a1abe5a..901cbf2 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -1190,11 +1190,12 @@ contains
         integer(c_long) :: written
         integer, pointer :: fortran_unit
         character(c_char), pointer :: fortran_buffer(:)
+        integer :: ios
 
         call c_f_pointer(context, fortran_unit)
         call c_f_pointer(buffer, fortran_buffer, [length])
-        write(fortran_unit) fortran_buffer
-        written = length
+        write(fortran_unit, iostat=ios) fortran_buffer
+        written = merge(length, -1_c_long, ios == 0)
     end function
 
     function encoder_encode(encoder, outunit, bytes_written) result(err)
-- 
2.43.0


From 71f31ca0eb4d47eb876b5c9777b2df7d27199336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 68/71] fix: odc split names files by keys beyond the range of
 int

---
 src/odc/WriterDispatchingIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 9e4255c..b8986cf 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -122,7 +122,7 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
                 s.replace(pos, 1, slash);
         }
         else {
-            s = eckit::Translator<int, std::string>()(int(*value));
+            s = eckit::Translator<long, std::string>()(long(*value));
         }
 
         fileName.replace(p.startPos - diff, p.endPos - p.startPos + 1, s);
-- 
2.43.0


From a1c4d60316804169cd9154cb79947a330444d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 69/71] fix: odc split -sort loses a first frame larger than
 what is sorted at once

---
 src/odc/tools/SplitTool.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 4e59e89..2506696 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,19 +84,19 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength > Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
-    if (r.size() == 0 || r.back().first != currentOffset)
-        r.push_back(make_pair(currentOffset, currentLength));
+    r.push_back(make_pair(currentOffset, currentLength));
     return r;
 }
 
-- 
2.43.0


From b63a926c4489d5db95ac62ffb7723ad36f1c6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 70/71] fix: odb_create_write_iterator opens its file twice,
 leaving a descriptor open

---
 src/odc/odccapi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index ae20360..6c7649a 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -367,7 +367,7 @@ oda_write_iterator_ptr odb_create_write_iterator(oda_ptr co, const char* filenam
     DataHandle* fh = ODBAPISettings::instance().writeToFile(PathName(std::string(filename)), estimatedLength, true);
 
     // TODO: make sure there's no leaks (FileHandle)
-    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, true));
+    Writer<>::iterator_class* w(new Writer<>::iterator_class(*o, fh, false));
     *err = !w;
     return oda_write_iterator_ptr(w);
 }
-- 
2.43.0


From 4ca92e7e26166b73c2726c4e81d9290759bd843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:21 +0000
Subject: [PATCH 71/71] fix: the wide header of odc sql gives the fields of
 bitfields, not the name of the column again

---
 src/odc/sql/TODATable.cc | 20 ++++++++++++++------
 src/odc/sql/TODATable.h  |  3 ++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index e07984a..e7d25d3 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -70,15 +70,23 @@ void checkBitfield(const std::string& name, const BitfieldDef& def) {
     }
 }
 
+std::string bitfieldTypeName(const BitfieldDef& def) {
+    std::string name = "Bitfield[";
+    for (size_t i = 0; i < def.first.size() && i < def.second.size(); ++i) {
+        name += (i ? ";" : "") + def.first[i] + ":" + std::to_string(def.second[i]);
+    }
+    return name + "]";
+}
+
 }  // namespace
 
 //----------------------------------------------------------------------------------------------------------------------
 
-BitfieldColumnType::BitfieldColumnType(const std::string& name, const BitfieldDef& def) :
-    SQLBitfield(name, def.first, def.second), current_(def) {}
+BitfieldColumnType::BitfieldColumnType(const std::string& column, const BitfieldDef& def) :
+    SQLBitfield(bitfieldTypeName(def), def.first, def.second), column_(column), current_(def) {}
 
 void BitfieldColumnType::update(const BitfieldDef& def) const {
-    checkBitfield(name(), def);
+    checkBitfield(column_, def);
     current_ = def;
 }
 
@@ -86,7 +94,7 @@ const type::SQLType* BitfieldColumnType::subType(const std::string& name) const
 
     // The name is that of the column, column.field, or column.field@table
 
-    if (name == this->name() || name == this->name().substr(0, this->name().find('@')))
+    if (name == column_ || name == column_.substr(0, column_.find('@')))
         return this;
 
     std::string field = name.substr(0, name.find('@', name.find('.') + 1));
@@ -97,7 +105,7 @@ const type::SQLType* BitfieldColumnType::subType(const std::string& name) const
         const unsigned long size = current_.second[i];
         if (current_.first[i] == field) {
             if (shift + size > 64) {
-                throw UserError("Field \"" + field + "\" of bitfield " + this->name() + " is out of range", Here());
+                throw UserError("Field \"" + field + "\" of bitfield " + column_ + " is out of range", Here());
             }
             const unsigned long mask = (size == 64 ? ~0UL : (1UL << size) - 1) << (size ? shift : 0);
 
@@ -112,7 +120,7 @@ const type::SQLType* BitfieldColumnType::subType(const std::string& name) const
         shift += size;
     }
 
-    throw UserError("Field \"" + field + "\" not found in bitfield " + this->name() + ", but required in SQL request.",
+    throw UserError("Field \"" + field + "\" not found in bitfield " + column_ + ", but required in SQL request.",
                     Here());
 }
 
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 57d52fb..379ad84 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -38,7 +38,7 @@ namespace sql {
 class BitfieldColumnType : public eckit::sql::type::SQLBitfield {
 public:
 
-    BitfieldColumnType(const std::string& name, const eckit::sql::BitfieldDef& def);
+    BitfieldColumnType(const std::string& column, const eckit::sql::BitfieldDef& def);
 
     /// Take the fields from the definition in the data read now
     void update(const eckit::sql::BitfieldDef& def) const;
@@ -49,6 +49,7 @@ private:  // methods (overrides)
 
 private:  // members
 
+    std::string column_;
     mutable eckit::sql::BitfieldDef current_;
     mutable std::vector<std::unique_ptr<eckit::sql::type::SQLBit>> bits_;
 };
-- 
2.43.0

