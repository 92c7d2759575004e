From 2391d681c7d371fcc400c57cb3d3511695e2bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 01/59] fix: reject subblock-directory entries with an
 out-of-range dimension count

The dimension count of a directory entry was used unchecked as the number of
bytes to copy into a fixed-size structure on the stack.
---
 Src/libCZI/CziParse.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..6206941 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -501,8 +501,14 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
-            int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                stringstream ss;
+                ss << "'DimensionCount' was found to be " << dv.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
+                CCZIParse::ThrowIllegalData(ss.str().c_str());
+            }
+
+            int sizeToRead = dv.DimensionCount * static_cast<int>(sizeof(DimensionEntryDV));
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 0c9559cc33ad38385ecd4c0997237a75cb5d0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 02/59] fix: reject a negative dimension count in a subblock
 segment

A negative count passed the upper-bound check and resulted in reading up to
4GB into the segment structure on the stack.
---
 Src/libCZI/CziParse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 6206941..5fdfad7 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -288,7 +288,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
-- 
2.43.0


From 131cf10e8df7872101f6d26663735d97c9334f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 03/59] fix: reject negative payload sizes when reading
 segments

A negative size was reported to the caller as a huge unsigned size together
with a null pointer.
---
 Src/libCZI/CziParse.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 5fdfad7..2316dad 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -278,6 +278,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid SubBlock-magic");
     }
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.AttachmentSize < 0 || subBlckSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in SubBlock-segment");
+    }
+
     uint32_t lengthSubblockSegmentData = 0;
     SubBlockData sbd;
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
@@ -461,6 +466,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in Attachment-segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
@@ -676,7 +686,11 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
-    // TODO: perform consistency checks...
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid (negative) size in Metadata-segment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
-- 
2.43.0


From f1545106284fab0d46bf379fcf8b076935919141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 04/59] fix: compare the number of bytes read with the
 full-width payload size

The comparison truncated the number of bytes to 32 bit, so that subblocks and
attachments of 2GB and more could not be read.
---
 Src/libCZI/CziParse.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 2316dad..af15051 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -392,7 +392,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -409,7 +409,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -426,7 +426,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -486,7 +486,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -705,7 +705,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -722,7 +722,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From cfc90a817341c80919926ddb4b03c4fa1c126fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/59] fix: handle allocation failure when reading segments

The size of a buffer comes from the file, so the allocation may fail; the null
pointer was then written to or returned together with a non-zero size.
---
 Src/libCZI/CziParse.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index af15051..57fa046 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -116,6 +116,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer && subBlkDirSize > 0)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +215,10 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
 
         // now read the attachment-entries
         try
@@ -378,6 +387,10 @@ using namespace libCZI::detail;
     std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
+    if ((!pMetadataBuffer && subBlckSegment.data.MetadataSize > 0) || (!pDataBuffer && subBlckSegment.data.DataSize > 0) || (!pAttachmentBuffer && subBlckSegment.data.AttachmentSize > 0))
+    {
+        throw std::bad_alloc();
+    }
 
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
@@ -474,6 +487,10 @@ using namespace libCZI::detail;
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    if (!pAttchmntBuffer && attchmntSegment.data.DataSize > 0)
+    {
+        throw std::bad_alloc();
+    }
 
     if (pAttchmntBuffer)
     {
@@ -694,6 +711,11 @@ using namespace libCZI::detail;
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    if ((!pXmlBuffer && metadataSegment.data.XmlSize > 0) || (!pAttachmentBuffer && metadataSegment.data.AttachmentSize > 0))
+    {
+        throw std::bad_alloc();
+    }
+
     if (pXmlBuffer)
     {
         try
-- 
2.43.0


From af05c98d176eb8a47a1d4f20858573e09b130016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 06/59] fix: convert Bgr24 to Bgr48 component-wise

The converter read the 3-byte source pixel as three 16-bit words, mixing
neighbouring components and reading beyond the last pixel of the bitmap.
---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 8f63b1c6e73714741742f19432a2c46f99c35f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:30 +0000
Subject: [PATCH 07/59] fix: copy the matching source pixels when drawing a
 tile border

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From 939ad012636bbd84f3abf954c78813befc54bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 08/59] fix: use the complete neighborhood when decimating a
 bitonal bitmap

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..58168a1 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const std::uint8_t* ptrSrc, int x, int width, int strideSrc);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -203,14 +203,16 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const std::uint8_t* ptrSrc, int x, int width, int strideSrc)
     {
-        if (x < width)
+        // note: 'x' is in units of bytes, 'width' is in units of pixels; pixels outside of the bitmap are considered to be set
+        const int bitsAvailable = width - x * 8;
+        if (bitsAvailable <= 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            return 0xff;
         }
 
-        return 0xff;
+        return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, ptrSrc + x, (std::min)(bitsAvailable, 8), strideSrc));
     }
 
     template <>
@@ -301,7 +303,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From 2315e8cb2691c887821f433006a420e8a8d6cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 09/59] fix: do not write beyond the destination line when
 decimating a bitonal bitmap

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 58168a1..c920b48 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -191,11 +191,13 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // ...and write only as many bytes as the destination line has
+            const int bytesToWrite = (widthDest + 7) / 8 - 2 * numberOfDwords;
+            if (bytesToWrite == 1)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
-            else
+            else if (bytesToWrite >= 2)
             {
                 *reinterpret_cast<uint16_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = EndianessConv::BswapUSHORT(dest);
             }
-- 
2.43.0


From 06dd3f4a29695573b2700bdc37cb602831ed9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 10/59] fix: clip a region left of or above a bitonal bitmap
 when filling

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index c920b48..3c66bf0 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1047,16 +1047,18 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
-    const int w = x2 - x1;
-    const int h = y2 - y1;
-
-    if (w <= 0 || h <= 0)
+    const int64_t roiX2 = (std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width));
+    const int64_t roiY2 = (std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height));
+    if (roiX2 <= x1 || roiY2 <= y1)
     {
         return;
     }
 
+    const int x2 = static_cast<int>(roiX2);
+    const int y2 = static_cast<int>(roiY2);
+    const int w = x2 - x1;
+    const int h = y2 - y1;
+
     // first, fill the "bulk"
     const int x1RoundedUp = ((x1 + 7) / 8) * 8;
     const int wRounded = w - (x1RoundedUp - x1);
-- 
2.43.0


From e137d846a1942c381ce75b3b37744999ce7f8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:53 +0000
Subject: [PATCH 11/59] fix: advance to the next pixel in a masked copy with
 conversion

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 3c66bf0..d9a0df7 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -717,10 +717,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From 66394f096893c5d57867a42e9d1c19348fe1f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 12/59] fix: pad the attachment directory behind its entries
 instead of over them

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..c6445eb 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From d456d46e96c9ec64eab9e4d985361013deef9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 13/59] fix: write all of the requested zeroes, not only about
 half of them for more than 4096 bytes

---
 Src/libCZI/CziWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index c6445eb..4e3c961 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,12 +470,12 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    while (count > 0)
     {
         uint64_t bytesWritten;
         const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
+        writeFunc(filePos + totalBytesWritten, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
+        count -= bytesToWrite;
         totalBytesWritten += (size_t)bytesWritten;
     }
 
-- 
2.43.0


From 95aaa3332a560db43ee50a9b85bdb0ee3ce4e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:24 +0000
Subject: [PATCH 14/59] fix: account for the segment header when advancing
 behind an appended directory segment

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..ce59474 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -285,7 +285,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -323,7 +323,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From f578d27b671d52aea8353cf9dedf85f2564dab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:24 +0000
Subject: [PATCH 15/59] fix: advance the position of the next segment after an
 attachment was replaced by a new one at the end

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index ce59474..f2cafff 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -892,7 +892,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 99d3d52fdab327b5a61cdb1789349ee3a7e9189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:24 +0000
Subject: [PATCH 16/59] fix: do not leave a gap of 32 bytes behind a replaced
 item (the size already includes the segment header)

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index f2cafff..8023811 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -177,7 +177,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
@@ -849,7 +849,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
-- 
2.43.0


From 6f0e5af5138026df184dd54bf0a6ea776a5e8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:03 +0000
Subject: [PATCH 17/59] fix: report attachment names and content types which
 fill their whole field without reading beyond it

---
 Src/libCZI/CZIReader.cpp       | 20 +++-----------------
 Src/libCZI/CziReaderCommon.cpp | 24 +++++++++++++++++-------
 Src/libCZI/CziReaderCommon.h   |  1 +
 Src/libCZI/CziReaderWriter.cpp | 19 +++----------------
 4 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..df10ec7 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -270,11 +270,7 @@ CCZIReader::CCZIReader() :
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -283,15 +279,10 @@ CCZIReader::CCZIReader() :
 /*virtual*/void CCZIReader::EnumerateAttachments(const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
     this->ThrowIfNotOperational();
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     this->attachmentDir.EnumAttachments(
         [&](int index, const CCziAttachmentsDirectory::AttachmentEntry& ae)
         {
-            ai.contentGuid = ae.ContentGuid;
-            memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
-            bool b = funcEnum(index, ai);
+            bool b = funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(ae));
             return b;
         });
 }
@@ -414,12 +405,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     }
 
     auto attchmnt = CCZIParse::ReadAttachment(stream_reference.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..be8257c 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -6,7 +6,9 @@
 
 #include "CziUtils.h"
 #include "utilities.h"
+#include <algorithm>
 #include <atomic>
+#include <cstring>
 
 using namespace std;
 using namespace libCZI;
@@ -88,18 +90,14 @@ using namespace libCZI::detail;
     const char* name,
     const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum)
 {
-    libCZI::AttachmentInfo ai;
-    ai.contentFileType[sizeof(ai.contentFileType) - 1] = '\0';
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            const libCZI::AttachmentInfo ai = CziReaderCommon::ConvertToAttachmentInfo(ae);
+            if (contentFileType == nullptr || strcmp(contentFileType, ai.contentFileType) == 0)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ai.name == name)
                 {
-                    ai.contentGuid = ae.ContentGuid;
-                    memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
                     bool b = funcEnum(index, ai);
                     return b;
                 }
@@ -109,6 +107,18 @@ using namespace libCZI::detail;
         });
 }
 
+/*static*/libCZI::AttachmentInfo CziReaderCommon::ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)
+{
+    // note that the fields of the entry are not zero-terminated if the text has the size of the field
+    libCZI::AttachmentInfo info;
+    info.contentGuid = entry.ContentGuid;
+    static_assert(sizeof(info.contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
+    memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
+    info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+    info.name.assign(entry.Name, std::find(entry.Name, entry.Name + sizeof(entry.Name), '\0'));
+    return info;
+}
+
 /*static*/libCZI::SubBlockInfo CziReaderCommon::ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry)
 {
     SubBlockInfo info;
diff --git a/Src/libCZI/CziReaderCommon.h b/Src/libCZI/CziReaderCommon.h
index 1d70179..d90d785 100644
--- a/Src/libCZI/CziReaderCommon.h
+++ b/Src/libCZI/CziReaderCommon.h
@@ -35,6 +35,7 @@ namespace libCZI
                 const char* name,
                 const std::function<bool(int index, const libCZI::AttachmentInfo& info)>& funcEnum);
 
+            static libCZI::AttachmentInfo ConvertToAttachmentInfo(const CCziAttachmentsDirectoryBase::AttachmentEntry& entry);
             static libCZI::SubBlockInfo ConvertToSubBlockInfo(const CCziSubBlockDirectory::SubBlkEntry& entry);
         };
 
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 8023811..3cf0857 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -787,11 +787,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
     if (info != nullptr)
     {
-        info->contentGuid = entry.ContentGuid;
-        static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
-        info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        *info = CziReaderCommon::ConvertToAttachmentInfo(entry);
     }
 
     return true;
@@ -803,11 +799,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     this->attachmentDirectory.EnumEntries(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& entry)->bool
         {
-            libCZI::AttachmentInfo info;
-            info.contentGuid = entry.ContentGuid;
-            memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
-            bool b = funcEnum(index, info);
+            bool b = funcEnum(index, CziReaderCommon::ConvertToAttachmentInfo(entry));
             return b;
         });
 }
@@ -934,12 +926,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     CCZIParse::SubBlockStorageAllocate allocateInfo{ malloc,free };
 
     auto attchmnt = CCZIParse::ReadAttachment(this->stream.get(), entry.FilePosition, allocateInfo);
-    libCZI::AttachmentInfo attchmentInfo;
-    attchmentInfo.contentGuid = entry.ContentGuid;
-    static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
-    memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-    attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    libCZI::AttachmentInfo attchmentInfo = CziReaderCommon::ConvertToAttachmentInfo(entry);
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From d4975b6273b8e56af31ab22712649aff0027f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:03 +0000
Subject: [PATCH 18/59] fix: do not write the row padding of a strided bitmap
 into the subblock when editing a document

---
 Src/libCZI/CziWriter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..18ead33 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,16 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                const size_t lineSize = addSbBlkInfoStrideBitmap.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType));
+                addSbInfo.sizeData = addSbBlkInfoStrideBitmap.physicalHeight * lineSize;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = lineSize;
                             return true;
                         }
 
-- 
2.43.0


From 3e7e5bf2c6f831fdb5acdc77a4fb34107d601586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 19/59] fix: clear the pyramid statistics when the subblock
 statistics are recreated

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..fd3599c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From 4021254c4d901c8ae472927d9b1322efed27873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 20/59] fix: account for the m-index of subblocks which have no
 plane coordinate in the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index fd3599c..f1f4cf2 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -82,22 +82,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 39094e87783045fd28a25e22e07c39016006b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:11 +0000
Subject: [PATCH 21/59] fix: report a negative subblock or attachment index as
 absent instead of failing with an undocumented exception

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..912d4ca 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index f1f4cf2..f05f7f0 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From 1e4af22e2f2ba582a0b2da5d78a884965cfe8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:37 +0000
Subject: [PATCH 22/59] fix: refuse a sign without digits in an index-set
 expression

The number parser of the index set accepted a lone '-' or '+' as zero, so that
e.g. '--5' was read as the interval 0 to 5.
---
 Src/libCZI/IndexSet.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..6181967 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -163,7 +163,14 @@ second_part_done:
     }
     else
     {
-        long int liValue = wcstol(str.c_str(), nullptr, 10);
+        wchar_t* end_of_number;
+        long int liValue = wcstol(str.c_str(), &end_of_number, 10);
+        if (end_of_number == str.c_str())
+        {
+            // a sign without any digit is not a number
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         if (liValue == (std::numeric_limits<long int>::max)() || liValue == (std::numeric_limits<long int>::min)())
         {
             if (errno == ERANGE)
-- 
2.43.0


From 96fd6920ac7095ab6cc977f811cbf291a4d11601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 23/59] fix: honour the scene filter in the single-channel tile
 accessor

ISingleChannelTileAccessor::Options::sceneFilter was ignored, tiles of all
scenes were painted.
---
 Src/libCZI/SingleChannelTileAccessor.cpp | 16 ++++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..3001272 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,19 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int scene_index;
+            if (sceneFilter != nullptr &&
+                info.coordinate.TryGetPosition(DimensionIndex::S, &scene_index) &&
+                !sceneFilter->IsContained(scene_index))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 3b57ee737ed2c66a87aeb4330a679c2ba41f8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 24/59] fix: do not drop tiles by visibility if masks are
 considered

The visibility check takes a tile for opaque; with 'maskAware' a tile which is
(partially) masked out does not hide the tiles beneath it.
---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..858b0e3 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // note that the visibility check assumes that a tile is opaque, so it cannot be used if masks are to be considered
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 3001272..957042d 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // note that the visibility check assumes that a tile is opaque, so it cannot be used if masks are to be considered
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From 091de7ea9db0a56cdaa50d293008e8c105b7b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:12 +0000
Subject: [PATCH 25/59] fix: sub-block cache shared by mask-aware and other
 operations

A tile which was added to the cache by an operation without 'maskAware' lost
its mask for later mask-aware operations, and a mask in the cache was applied
although 'maskAware' was not requested.
---
 Src/libCZI/SingleChannelAccessorBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..5e2b325 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,21 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // The cache item always has to include the mask (if there is one), because it may be used later on by a mask-aware operation.
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            result.mask = mask_aware_mode ? mask : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
         }
     }
-- 
2.43.0


From 31510b4d416310bc1eba9817cab0065c9299a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:13 +0000
Subject: [PATCH 26/59] fix: pyramid-layer accessor with no tile of the layer
 in the ROI

If the ROI contained tiles, but none of them on the requested layer, the
accessor failed with a std::out_of_range instead of delivering the background.
---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..c49a964 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto requestedLayer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (requestedLayer == byLayer.end())
+    {   // there are subblocks in the ROI, but none on the requested pyramid-layer - so there is nothing to do
+        return;
+    }
+
+    const auto& indices = requestedLayer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 9cf970a6e892ba63935b24b285ea69e2ff5645de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:53 +0000
Subject: [PATCH 27/59] fix: rectangle intersection with edges beyond the range
 of int

The right and bottom edge of a rectangle was calculated with 32 bits, so the
result for rectangles close to the limits (which e.g. a document may contain)
was undefined.
---
 Src/libCZI/libCZI_Pixels.h | 14 +++++++-------
 Src/libCZI/utilities.h     |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/libCZI_Pixels.h b/Src/libCZI/libCZI_Pixels.h
index c966545..d1a0571 100644
--- a/Src/libCZI/libCZI_Pixels.h
+++ b/Src/libCZI/libCZI_Pixels.h
@@ -40,10 +40,10 @@ namespace libCZI
                 return false;
             }
 
-            return !(this->x + this->w <= r.x ||
-                        r.x + r.w <= this->x ||
-                        this->y + this->h <= r.y ||
-                        r.y + r.h <= this->y);
+            return !(static_cast<std::int64_t>(this->x) + this->w <= r.x ||
+                        static_cast<std::int64_t>(r.x) + r.w <= this->x ||
+                        static_cast<std::int64_t>(this->y) + this->h <= r.y ||
+                        static_cast<std::int64_t>(r.y) + r.h <= this->y);
         }
 
         /// Calculate the intersection with the specified rectangle.
@@ -65,12 +65,12 @@ namespace libCZI
         static IntRect Intersect(const IntRect& a, const IntRect& b)
         {
             const int x1 = (std::max)(a.x, b.x);
-            const int x2 = (std::min)(a.x + a.w, b.x + b.w);
+            const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(a.x) + a.w, static_cast<std::int64_t>(b.x) + b.w);
             const int y1 = (std::max)(a.y, b.y);
-            const int y2 = (std::min)(a.y + a.h, b.y + b.h);
+            const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(a.y) + a.h, static_cast<std::int64_t>(b.y) + b.h);
             if (x2 >= x1 && y2 >= y1)
             {
-                return IntRect{ x1, y1, x2 - x1, y2 - y1 };
+                return IntRect{ x1, y1, static_cast<int>(x2 - x1), static_cast<int>(y2 - y1) };
             }
 
             return IntRect{ 0,0,0,0 };
diff --git a/Src/libCZI/utilities.h b/Src/libCZI/utilities.h
index ae11243..a0867fc 100644
--- a/Src/libCZI/utilities.h
+++ b/Src/libCZI/utilities.h
@@ -53,13 +53,13 @@ namespace libCZI
             static libCZI::IntRect Intersect(const libCZI::IntRect& a, const libCZI::IntRect& b)
             {
                 const int x1 = (std::max)(a.x, b.x);
-                const int x2 = (std::min)(a.x + a.w, b.x + b.w);
+                const std::int64_t x2 = (std::min)(static_cast<std::int64_t>(a.x) + a.w, static_cast<std::int64_t>(b.x) + b.w);
                 const int y1 = (std::max)(a.y, b.y);
-                const int y2 = (std::min)(a.y + a.h, b.y + b.h);
+                const std::int64_t y2 = (std::min)(static_cast<std::int64_t>(a.y) + a.h, static_cast<std::int64_t>(b.y) + b.h);
 
                 if (x2 >= x1 && y2 >= y1)
                 {
-                    return libCZI::IntRect{ x1, y1, x2 - x1, y2 - y1 };
+                    return libCZI::IntRect{ x1, y1, static_cast<int>(x2 - x1), static_cast<int>(y2 - y1) };
                 }
 
                 return libCZI::IntRect{ 0,0,0,0 };
-- 
2.43.0


From 4172dd8baea4b5ae301d296401e62460385f6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 28/59] fix: enumeration of the chunks in a sub-block
 attachment

Only the position of the first chunk was right (the payload was not skipped,
and the index stayed at zero), and a chunk size close to 2^32 passed the check
against the size of the attachment.
---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..6c88d5d 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,30 +55,28 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    size_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
-        if (size_attachment_data < offset + 20 + chunk_info.size)
+        if (size_attachment_data - offset - 20 < chunk_info.size)
         {
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,7 +85,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += static_cast<size_t>(20) + chunk_info.size;
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
         if (size_attachment_data < offset + 21)
-- 
2.43.0


From 657a80a11183ec7df5a521c7e278b70cb955a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 29/59] fix: check the valid-pixel-mask chunk before using it

If the chunk container had no mask chunk, an uninitialized offset was used; a
chunk too small for its header and a width close to 2^32 led to accesses beyond
the attachment.
---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 6c88d5d..ba169a7 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,30 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("The chunk container does not contain a valid pixel mask.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Invalid valid-pixel-mask chunk.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
@@ -152,7 +164,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid uncompressed bitonal bitmap pixel mask ");
     }
 
-    mask_info_uncompressed_bitonal_bitmap.stride = *reinterpret_cast<const std::uint32_t*>(static_cast<const uint8_t*>(mask_info_general.data.get()));
+    memcpy(&mask_info_uncompressed_bitonal_bitmap.stride, mask_info_general.data.get(), sizeof(mask_info_uncompressed_bitonal_bitmap.stride));
     Utilities::ConvertUint32ToHostByteOrder(&mask_info_uncompressed_bitonal_bitmap.stride);
     mask_info_uncompressed_bitonal_bitmap.size_data = mask_info_general.size_data - sizeof(uint32_t);
     if (mask_info_uncompressed_bitonal_bitmap.size_data > 0)
@@ -172,7 +184,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = static_cast<uint32_t>((static_cast<uint64_t>(mask_info.width) + 7) / 8);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From 1f8e992c1c168e4dfdca8cbe8b7bb616bcc4d66b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 30/59] fix: check of the stride in lo-hi byte packing for a
 width of 2^31 and more

'width * 2' was calculated with 32 bits, so that a much too small stride was accepted.
---
 Src/libCZI/utilities.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..096ddac 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -505,10 +505,10 @@ tString trimImpl(const tString& str, const tString& whitespace)
         throw invalid_argument("'dest' must not be null.");
     }
 
-    if (stride < width * 2)
+    if (stride < static_cast<uint64_t>(width) * 2)
     {
         stringstream ss;
-        ss << "For a width of " << width << " pixels, the stride must be >= " << width * 2 << ".";
+        ss << "For a width of " << width << " pixels, the stride must be >= " << static_cast<uint64_t>(width) * 2 << ".";
         throw invalid_argument(ss.str());
     }
 }
@@ -532,10 +532,10 @@ tString trimImpl(const tString& str, const tString& whitespace)
         throw invalid_argument(ss.str());
     }
 
-    if (stride < width * 2)
+    if (stride < static_cast<uint64_t>(width) * 2)
     {
         stringstream ss;
-        ss << "For a width of " << width << " pixels, the stride must be >= " << width * 2 << ".";
+        ss << "For a width of " << width << " pixels, the stride must be >= " << static_cast<uint64_t>(width) * 2 << ".";
         throw invalid_argument(ss.str());
     }
 }
-- 
2.43.0


From 52eb3a2253b29062d7e50819bdebd41125f61874 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 31/59] fix: refuse a zstd1-header with an unknown size field

The header parser read up to two bytes beyond the payload if it was shorter
than three bytes, and accepted any value in the size field.
---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..edec4fb 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -372,13 +372,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        // in case of '3'... the size must be at least 3
+        if (*ptrData != 3 || size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From c1e3ac1539ffceca641c5427f8e5dfd8eb5e3042 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:03 +0000
Subject: [PATCH 32/59] fix: number of 16-bit words when unpacking Bgr48 data
 with size-mismatch handling

The number of pixels was used as the number of 16-bit words, so that two
thirds of a Bgr48 bitmap were left uninitialised or had wrong values.
---
 Src/libCZI/decoder_zstd.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index edec4fb..a051db1 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -292,7 +292,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,7 +307,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
             memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
             return bitmap;
         }
@@ -331,7 +331,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From f4eb16e6c55e464f8e63d1b1df59928be2c84d7a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:25 +0000
Subject: [PATCH 33/59] fix: zero-fill the bitmap completely if lo-hi-packed
 data has an odd size

One byte of the bitmap was left uninitialised.
---
 Src/libCZI/decoder_zstd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index a051db1..7c637f2 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -308,7 +308,8 @@ namespace
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            const size_t size_packed = (decompressed_size / 2) * 2; // an odd byte at the end does not give a 16-bit word
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + size_packed, 0, expectedSize - size_packed);
             return bitmap;
         }
         else
-- 
2.43.0


From ca18101cb5c622980b2a5e5d614b9022cc031107 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:43 +0000
Subject: [PATCH 34/59] fix: refuse to decode zstd-data into a bitmap whose
 line size exceeds 32 bits

The bitmap was created with a truncated stride, and decoding (or filling up
with zeroes) wrote beyond its memory.
---
 Src/libCZI/decoder_zstd.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 7c637f2..b4aeddf 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -13,6 +13,7 @@
 #include "libCZI_Utilities.h"
 #include "utilities.h"
 #include <cstring>
+#include <limits>
 
 using namespace std;
 using namespace libCZI;
@@ -79,6 +80,19 @@ namespace
         return false;
     }
 
+    /// Gets the size of a line of the bitmap (with minimal stride) in bytes. If the line is too large for
+    /// being represented by a bitmap object (which uses 32-bit integers for the stride), an exception is thrown.
+    size_t GetLineSizeOrThrow(libCZI::PixelType pixel_type, uint32_t width)
+    {
+        const uint64_t line_size = static_cast<uint64_t>(width) * Utils::GetBytesPerPixel(pixel_type);
+        if (line_size > static_cast<uint64_t>(numeric_limits<uint32_t>::max() - 3))
+        {
+            throw runtime_error("The width of the bitmap is too large.");
+        }
+
+        return static_cast<size_t>(line_size);
+    }
+
     uint64_t GetZstdContentSizeOrThrow(const void* ptr_data, size_t size)
     {
         const auto zstd_frame_content_size = ZSTD_getFrameContentSize(ptr_data, size);
@@ -130,7 +144,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeRequireCorrectSize(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = GetLineSizeOrThrow(pixel_type, width);
         const size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -165,7 +179,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = GetLineSizeOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -209,7 +223,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        size_t stride = GetLineSizeOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -275,8 +289,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = GetLineSizeOrThrow(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
-- 
2.43.0


From cbe9fe5b3f1d53e67fe60dbebe718ec75f8df538 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:43 +0000
Subject: [PATCH 35/59] fix: refuse an uncompressed subblock whose line size
 exceeds 32 bits

The line size was truncated, and a bitmap was delivered whose width is larger
than the data it refers to.
---
 Src/libCZI/CreateBitmap.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..727967b 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <limits>
 #include "bitmapData.h"
 #include "Site.h"
 #include "libCZI.h"
@@ -104,7 +105,13 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint64_t line_size = static_cast<std::uint64_t>(sub_block_info.physicalSize.w) * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    if (line_size > static_cast<std::uint64_t>(std::numeric_limits<std::uint32_t>::max() - 3))
+    {
+        throw std::logic_error("the width of the subblock is too large");
+    }
+
+    const std::uint32_t stride = static_cast<std::uint32_t>(line_size);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
-- 
2.43.0


From 226c358a26984df989916e5c4658f0235e379573 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:43 +0000
Subject: [PATCH 36/59] fix: unlock the bitmaps if a JpgXR-bitmap cannot be
 converted to the pixel type of the subblock

The exception left the bitmaps locked, and destroying a locked bitmap terminates
the program.
---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 727967b..db27ea0 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -44,8 +44,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock{ adjusted_bitmap };
+            const ScopedBitmapLockerSP decoded_bitmap_lock{ decoded_bitmap };
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -61,8 +61,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From b39a46b7432f6364a47e37be09f31b29e9104a0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:57:43 +0000
Subject: [PATCH 37/59] fix: check of the stride in the zstd-compressor for
 very wide bitmaps

The minimal stride was calculated with 32 bits.
---
 Src/libCZI/zstdCompress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..757230a 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -103,11 +103,11 @@ static void CheckSourceBitmapArgumentsAndThrow(std::uint32_t sourceWidth, std::u
     }
 
     // note: GetBytesPerPixel will throw (an invalid_argument-exception) in case of an invalid enum value
-    if (sourceStride < sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype))
+    if (sourceStride < static_cast<uint64_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype))
     {
         stringstream ss;
         ss << "stride is illegal, for width=" << sourceWidth << " and pixeltype=" << Utils::PixelTypeToInformalString(sourcePixeltype) << " the minimum stride is "
-            << sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype) << " whereas " << sourceStride << " was specified.";
+            << static_cast<uint64_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype) << " whereas " << sourceStride << " was specified.";
         throw invalid_argument(ss.str());
     }
 
-- 
2.43.0


From ab2664f24c58ca7adacb8f00797b7c63d5e0f417 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:58:16 +0000
Subject: [PATCH 38/59] fix: refuse to create a bitmap whose line size exceeds
 32 bits

The calculation of the pitch overflowed, and a bitmap with too little memory was
created.
---
 Src/libCZI/bitmapData.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..415bacc 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,9 @@
 
 #include <memory>
 #include <atomic>
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +124,16 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint64_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
+                std::uint64_t stride = CziUtils::GetBytesPerPel(pixeltype) * width;
                 stride = ((stride + 3) / 4) * 4;
-                return stride;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::invalid_argument("The width of the bitmap is too large.");
+                }
+
+                return static_cast<std::uint32_t>(stride);
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
@@ -149,7 +157,7 @@ namespace libCZI
         {
             if (pitch == 0)
             {
-                pitch = CalcDefaultPitch(pixeltype, width + 2 * extraColumns);
+                pitch = CalcDefaultPitch(pixeltype, width + 2 * static_cast<std::uint64_t>(extraColumns));
             }
 
             auto s = std::make_shared<CBitmapData<tAllocator>>(pixeltype, width, height, pitch, extraRows, extraColumns);
-- 
2.43.0


From 80dae54a8d60274e08e4c2bd8a681a0f1902563c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:01:04 +0000
Subject: [PATCH 39/59] fix: lo-hi packing of zstd-data of 4 GB and more with
 size-mismatch handling

The number of words and the stride were truncated to 32 bits, so that uninitialised memory was copied into the bitmap. When the data is larger than the bitmap, the words fitting into the bitmap are now packed right away.
---
 Src/libCZI/decoder_zstd.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index b4aeddf..924e4f2 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -310,6 +310,11 @@ namespace
         }
         else if (zstd_frame_content_size < expectedSize)
         {
+            if (zstd_frame_content_size > numeric_limits<uint32_t>::max())
+            {
+                throw runtime_error("Zstd-compressed data of this size cannot be adjusted to the size of the bitmap.");
+            }
+
             unique_ptr<void, decltype(&free)> temporary_buffer(malloc(zstd_frame_content_size), free);
             if (temporary_buffer == nullptr)
             {
@@ -335,24 +340,12 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            const size_t decompressed_size = DecompressAndThrowIfError(ptr_data, size, temporary_buffer.get(), zstd_frame_content_size, zstd_frame_content_size);
-
-            // Ok, now we need an additional temporary buffer for the packing (we simply cannot pack into the
-            //  destination bitmap, at least not without a new LoHiBytePack-method which would allow this)
-            unique_ptr<void, decltype(&free)> temporary_buffer_for_packed(malloc(zstd_frame_content_size), free);
-            if (temporary_buffer_for_packed == nullptr)
-            {
-                throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
-            }
-
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
-
-            // now we can release the first temporary buffer
-            temporary_buffer.reset();
+            DecompressAndThrowIfError(ptr_data, size, temporary_buffer.get(), zstd_frame_content_size, zstd_frame_content_size);
 
-            auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
+            // the packing takes the high-bytes from the second half of the source, and only the words fitting into the bitmap are packed
+            auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            memcpy(bitmap_lock_info.ptrDataRoi, temporary_buffer_for_packed.get(), expectedSize);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
     }
-- 
2.43.0


From f5b7857688aa1d48801ab00c8d74d1915fdad86d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 40/59] fix: C-API - check arguments of
 libCZI_ReaderReadAttachment

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..1477841 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
-- 
2.43.0


From 999ed93fcbe1f4ca64f6a7e8c23c288f945c7498 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 41/59] fix: C-API - check output argument of
 libCZI_ReaderGetMetadataSegment

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1477841..605c90e 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
-- 
2.43.0


From 361908ff3ad8ecf9d6edd2f1050b7c59e6726f0d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 42/59] fix: C-API - empty XML-metadata and null output
 argument in libCZI_MetadataSegmentGetMetadataAsXml

---
 Src/libCZIAPI/src/libCZIApi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 605c90e..d9acdf7 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1115,9 +1115,9 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
         return LibCZIApi_ErrorCode_InvalidHandle;
     }
 
-    size_t size;
+    size_t size = 0;
     auto data = shared_czi_metadata_segment_wrapping_object->shared_ptr_->GetRawData(IMetadataSegment::XmlMetadata, &size);
-    if (!data)
+    if (!data && size > 0)
     {
         return LibCZIApi_ErrorCode_UnspecifiedError;
     }
@@ -1125,7 +1125,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
@@ -1136,7 +1136,11 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
         return LibCZIApi_ErrorCode_OutOfMemory;
     }
 
-    memcpy(allocated_memory, data.get(), size);
+    if (size > 0)
+    {
+        memcpy(allocated_memory, data.get(), size);
+    }
+
     allocated_memory[size_to_allocate - 1] = '\0';
 
     metadata_as_xml_interop->data = allocated_memory;
-- 
2.43.0


From 922344a83d3b655b4efff00cf7e5ce7ad9a16292 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 43/59] fix: C-API - write the specified compression mode of a
 subblock

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index d9acdf7..a95d775 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1715,7 +1715,7 @@ namespace
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
         add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
-        add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
+        add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
 
-- 
2.43.0


From 20e8632752fd774d6ba694cfd13582d47c0e2a38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 44/59] fix: C-API - report the condenser contrast in the
 channel information

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..615f81f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1395,7 +1395,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From 15616d8f084a1eb520f840f6a3861a3f82eca99a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 45/59] fix: C-API - check for invalid bitmap-handles in
 libCZI_CompositorDoMultiChannelComposition

---
 Src/libCZIAPI/src/libCZIApi.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index a95d775..1679b3a 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1986,6 +1986,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From 5fe68ec9bf3273dde944f7c5338ffecb0790247b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 46/59] fix: C-API - documents without display-settings,
 channels without display-settings

---
 Src/libCZIAPI/src/libCZIApi.cpp        | 7 +++++++
 Src/libCZIAPI/src/parameterhelpers.cpp | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1679b3a..ccd7cb6 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1306,6 +1306,13 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            // the document does not contain display-settings
+            *display_settings_handle = kInvalidObjectHandle;
+            return LibCZIApi_ErrorCode_OK;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 615f81f..37f8a21 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1460,6 +1460,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::invalid_argument("there are no display-settings for the specified channel");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
-- 
2.43.0


From 418d2029cebf6ddfe95b033186a2b61347e39182 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 47/59] fix: C-API - report an error for dimensions without
 dimension-information

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index ccd7cb6..b414262 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1381,6 +1381,8 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From 7f3b716f46a071d1190405bbdf3b3aacaf5fadcd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 48/59] fix: C-API - distinguish attachment-handles and
 document-info-handles

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..efc9c09 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5C8B21E6u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From a60721109414046fefb2788614558af2e7e6396b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 49/59] fix: C-API - do not copy from a null pointer for empty
 raw data

---
 Src/libCZIAPI/src/libCZIApi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index b414262..189a81a 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -893,7 +893,7 @@ LibCZIApiErrorCode libCZI_SubBlockGetRawData(SubBlockObjectHandle sub_block_obje
         const auto raw_data = shared_sub_block_wrapping_object->shared_ptr_->GetRawData(mem_blk_type, &actual_size);
         *size = actual_size;
 
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, static_cast<uint64_t>(actual_size)));
         }
@@ -1471,7 +1471,7 @@ LibCZIApiErrorCode libCZI_AttachmentGetRawData(AttachmentObjectHandle attachment
         size_t actual_size;
         const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
         *size = actual_size;
-        if (data != nullptr)
+        if (data != nullptr && actual_size > 0)
         {
             memcpy(data, raw_data.get(), min(size_of_destination, actual_size));
         }
-- 
2.43.0


From abf5a7c681f3a5bc48a992a3f7dc5ed8363eae9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 50/59] fix: C-API - validate the size of the bitmap-data when
 adding an uncompressed subblock

---
 Src/libCZIAPI/src/libCZIApi.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 189a81a..a9273c6 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1735,6 +1735,16 @@ namespace
 
         FillOutAddSubBlockInfoBase(add_sub_block_info, add_sub_block_info_strided_bitmap);
 
+        // the memory passed in must be large enough for the bitmap
+        if (add_sub_block_info->physical_width > 0 && add_sub_block_info->physical_height > 0)
+        {
+            const uint64_t line_size = static_cast<uint64_t>(add_sub_block_info->physical_width) * libCZI::Utils::GetBytesPerPixel(add_sub_block_info_strided_bitmap.PixelType);
+            if (static_cast<uint64_t>(add_sub_block_info->physical_height - 1) * add_sub_block_info->stride + line_size > add_sub_block_info->size_data)
+            {
+                throw std::invalid_argument("The size of the bitmap-data is too small.");
+            }
+        }
+
         add_sub_block_info_strided_bitmap.strideBitmap = add_sub_block_info->stride;
         add_sub_block_info_strided_bitmap.ptrBitmap = add_sub_block_info->data;
 
-- 
2.43.0


From 3e92ac39e2f0e50eb0fa1fc5353071d31f0921f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 51/59] fix: multi-channel composition - check for a null
 source bitmap before using it

---
 Src/libCZI/MultiChannelCompositor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..9923c0e 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1052,6 +1052,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1060,13 +1067,6 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
             if (channelInfos[i].lookUpTableElementCount > 0)
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
-- 
2.43.0


From fd134a6df423424cf42f7396f905d46137067aab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 52/59] fix: multi-channel composition - refuse a look-up table
 with a negative number of elements

---
 Src/libCZI/MultiChannelCompositor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 9923c0e..6ff0a2e 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1067,12 +1067,12 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (channelInfos[i].lookUpTableElementCount > 0)
+            if (IsUsingLut(channelInfos + i))
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
                 {
                     stringstream ss;
-                    ss << "index #" << i << " -> if lookUpTableElementCount>0, then ptrLookUpTable must be valid";
+                    ss << "index #" << i << " -> if lookUpTableElementCount is not zero, then ptrLookUpTable must be valid";
                     throw std::invalid_argument(ss.str());
                 }
 
-- 
2.43.0


From 5cb2da0c572246705a92ca1cbe87a6743888d1bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 53/59] fix: multi-channel composition - check the arguments
 before determining the size of the destination

---
 Src/libCZI/MultiChannelCompositor.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 6ff0a2e..c5ff709 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1307,11 +1307,25 @@ public:
     CMultiChannelCompositor2::ComposeMultiChannel_Bgra32(dest, channelCount, srcBitmaps, channelInfos, alphaVal);
 }
 
+static void CheckSourceBitmaps(int channelCount, libCZI::IBitmapData* const* srcBitmaps)
+{
+    if (channelCount <= 0)
+    {
+        throw std::invalid_argument("channelCount must be >0");
+    }
+
+    if (srcBitmaps == nullptr || *srcBitmaps == nullptr)
+    {
+        throw std::invalid_argument("the source bitmaps must not be nullptr");
+    }
+}
+
 /*static*/std::shared_ptr<IBitmapData> Compositors::ComposeMultiChannel_Bgr24(
     int channelCount,
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgr24, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgr24(bmDest.get(), channelCount, srcBitmaps, channelInfos);
     return bmDest;
@@ -1323,6 +1337,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgra32, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgra32(bmDest.get(), alphaVal, channelCount, srcBitmaps, channelInfos);
     return bmDest;
-- 
2.43.0


From 8cf1fb2c9ba7f1283e35c9edbf816d5eaf98fecc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:48:14 +0000
Subject: [PATCH 54/59] fix: refuse metadata whose size cannot be represented
 in the metadata-segment

---
 Src/libCZI/CziWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 4e3c961..6695542 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -878,6 +878,17 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
     {
         throw std::invalid_argument("'ptrAttachment' must be non-null");
     }
+
+    // the sizes are stored as 32-bit signed integers in the metadata-segment
+    if (metadataInfo.szMetadataSize > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'szMetadataSize' must be <= numeric_limits<int>::max()");
+    }
+
+    if (metadataInfo.attachmentSize > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'attachmentSize' must be <= numeric_limits<int>::max()");
+    }
 }
 
 // calculate the "allocated" size from the "used size" (taking into account some alignment restrictions).
-- 
2.43.0


From 0bdddd64d2f95a59474e0d187092962d739abdea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:18:59 +0000
Subject: [PATCH 55/59] fix: replace a subblock in place whenever it fits into
 the existing segment

The check compared the size rounded up to 32 with the allocated size of the existing
segment, so that replacing failed with an exception for an existing segment whose
allocated size is no multiple of 32, although the new data fits.
---
 Src/libCZI/CziWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 6695542..b48adee 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -141,7 +141,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::FillSubBlockSegment(info, addSbBlkInfo, &sbBlkSegment);
         if (info.useSpecifiedAllocatedSize == true)
         {
-            if (static_cast<uint64_t>(sbBlkSegment.header.AllocatedSize) > info.specifiedAllocatedSize)
+            if (static_cast<uint64_t>(sbBlkSegment.header.UsedSize) > info.specifiedAllocatedSize)
             {
                 // TODO
                 throw runtime_error("specified segment-size not sufficient");
@@ -162,7 +162,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         CWriterUtils::FillSubBlockSegment(info, addSbBlkInfo, upSbBlkSegment.get());
         if (info.useSpecifiedAllocatedSize == true)
         {
-            if (static_cast<uint64_t>(upSbBlkSegment->header.AllocatedSize) > info.specifiedAllocatedSize)
+            if (static_cast<uint64_t>(upSbBlkSegment->header.UsedSize) > info.specifiedAllocatedSize)
             {
                 // TODO
                 throw runtime_error("specified segment-size not sufficient");
-- 
2.43.0


From 8b7afb73737055c86584bf6a46695d197d45498d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:26:34 +0000
Subject: [PATCH 56/59] fix: check the sizes of subblock-metadata and
 -attachment before the subblock is added to the directory

They were checked while writing the segment, when the subblock was already in the
directory, so that a refused subblock left an entry without a segment.
---
 Src/libCZI/CziWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index b48adee..e6e3e4d 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -800,6 +800,17 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
         throw std::invalid_argument("'getAttachment' must be non-null");
     }
 
+    // those sizes are stored as 32-bit signed integers in the subblock-segment
+    if (addSbBlkInfo.sizeMetadata > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'sizeMetadata' must be <= numeric_limits<int>::max()");
+    }
+
+    if (addSbBlkInfo.sizeAttachment > static_cast<size_t>((numeric_limits<int>::max)()))
+    {
+        throw std::invalid_argument("'sizeAttachment' must be <= numeric_limits<int>::max()");
+    }
+
     if (addSbBlkInfo.logicalWidth < 0 || addSbBlkInfo.logicalHeight < 0 || addSbBlkInfo.physicalWidth < 0 || addSbBlkInfo.physicalHeight < 0)
     {
         // TODO: probably a zero width/height is also illegal
-- 
2.43.0


From 12e898bcc27df78c369eb2dbcced2d00e95128d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:53:43 +0000
Subject: [PATCH 57/59] fix: calculate the line size of a linewise bitmap
 without overflow when editing a document

---
 Src/libCZI/CziWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 18ead33..f82a7aa 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -68,7 +68,7 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbInfoLinewise);
 
-                size_t stride = addSbInfoLinewise.physicalWidth * CziUtils::GetBytesPerPel(addSbInfoLinewise.PixelType);
+                size_t stride = addSbInfoLinewise.physicalWidth * static_cast<size_t>(CziUtils::GetBytesPerPel(addSbInfoLinewise.PixelType));
                 addSbInfo.sizeData = addSbInfoLinewise.physicalHeight * stride;
                 auto linesCnt = addSbInfoLinewise.physicalHeight;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
-- 
2.43.0


From 3aa72db774638263da3a295b871fba75bc566393 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 58/59] fix: mark the pyramid-statistics as sorted, so that
 concurrent queries do not sort it again

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index f05f7f0..065f2bb 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From dea85a5098aa531e7697e2e40368d5df51a8fa8a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:47:21 +0000
Subject: [PATCH 59/59] fix: make the operational state of the reader atomic
 (Close may be called concurrently with read operations)

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..f53e487 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0

