From 83773c0fd30fb6ee86f72b280fd78fd7bca0a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:21 +0000
Subject: [PATCH 01/90] fix: payload-only framing dropped two checksum lengths
 too many

The header to skip is the message without payload and without CRC; adding the
CRC length instead of subtracting it returned the payload shifted by eight
bytes and consumed eight bytes of the next message.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..cc2180f 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -289,7 +289,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin(uiMyExpectedMessageLength - uiMyExpectedPayloadLength - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From ba21909941b97c37737224ea51072546ec45e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:39 +0000
Subject: [PATCH 02/90] fix: framers wrote unknown bytes past the end of the
 caller's buffer

A rejected candidate, or the sync search, can leave more unknown bytes than the
provided buffer holds; they were all copied, and the reported length disagreed
with what was handed out. Hand out at most what fits, the rest follows on the
next call.
---
 src/decoders/common/src/framer.cpp |  3 +++
 src/decoders/oem/src/framer.cpp    | 36 ++++++++++++++++--------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..501f37f 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -26,6 +26,8 @@
 
 #include "novatel_edie/decoders/common/framer.hpp"
 
+#include <algorithm>
+
 using namespace novatel::edie;
 
 [[nodiscard]] STATUS FramerBase::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, MetaDataBase& stMetaData_, bool bMetadataOnly_)
@@ -38,6 +40,7 @@ using namespace novatel::edie;
 
     // Helper to set metadata and handle unknown bytes
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        length = std::min(length, uiFrameBufferSize_); // Never hand out more than the provided buffer can hold
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index cc2180f..5efea43 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/framer.hpp"
 
+#include <algorithm>
 #include <charconv>
 
 #include "novatel_edie/decoders/common/framer_registration.hpp"
@@ -52,6 +53,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // Helper to set metadata and hand out unknown bytes, never more than the provided buffer can hold
+    auto handleUnknown = [&](uint32_t uiLength_) -> STATUS {
+        uiLength_ = std::min(uiLength_, uiFrameBufferSize_);
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = uiLength_;
+        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiLength_); }
+        return STATUS::UNKNOWN;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -67,13 +77,14 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 return STATUS::INCOMPLETE;
             }
 
-            stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-            stMetaData_.uiLength = uiMyByteCount;
-
-            if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
+            if (uiMyByteCount == 0)
+            {
+                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+                stMetaData_.uiLength = 0;
+                return STATUS::BUFFER_EMPTY;
+            }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return handleUnknown(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -132,18 +143,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
+                return handleUnknown(uiMyByteCount - 1);
             }
+            if (uiMyByteCount > uiFrameBufferSize_) { return handleUnknown(uiFrameBufferSize_); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
-- 
2.43.0


From 27eb72875fd58782c787b5118842ce087a6beca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:39 +0000
Subject: [PATCH 03/90] fix: NMEA messages of the minimum length were rejected

MIN_NMEA_MESSAGE_LENGTH is the length of a valid message without fields
($ccccc*hhCRLF), but messages of exactly this length were treated as too short.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 5efea43..bef8713 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -515,7 +515,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         case NovAtelFrameState::WAITING_FOR_NMEA_CRC: {
             if (ucDataByte == '\n')
             {
-                if (uiMyByteCount <= MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
+                if (uiMyByteCount < MIN_NMEA_MESSAGE_LENGTH) // Handling the case where the message is too short. e.g. $*<CR> will incorrectly frame.
                 {
                     uiMyByteCount = NMEA_SYNC_LENGTH;
                     uiMyExpectedPayloadLength = 0;
-- 
2.43.0


From 375c114141f431375a9b91436ded9af8833f352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 04/90] fix: CRC lookahead of the ASCII framing wrapped around
 on short buffers

With fewer than ten bytes buffered the unsigned subtraction wrapped, so a '*'
was taken for payload instead of waiting for the CRC to arrive.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index bef8713..265cc6a 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -320,7 +320,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 98ef117a46193d38aa52ed5e7491a919f85c0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:16 +0000
Subject: [PATCH 05/90] fix: framing depended on the format left in the
 caller's metadata

GetFrame read back the format it had stored in the caller's MetaDataStruct on an
earlier call. After a proprietary binary message the next binary message was
reported as proprietary, and with a new MetaDataStruct the format of a message
completed over several calls was lost, as was the end of an abbreviated ASCII
header.
---
 include/novatel_edie/decoders/oem/framer.hpp |  1 +
 src/decoders/oem/src/framer.cpp              | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index 083cb35..633db3e 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -40,6 +40,7 @@ class Framer : public FramerBase
 {
   private:
     NovAtelFrameState eMyFrameState{NovAtelFrameState::WAITING_FOR_SYNC};
+    HEADER_FORMAT eMyFrameFormat{HEADER_FORMAT::UNKNOWN}; // Format of the candidate message while it is incomplete
 
     uint32_t uiMyJsonObjectOpenBraces{0};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 265cc6a..613b86d 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -62,6 +62,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         return STATUS::UNKNOWN;
     };
 
+    // Helper to wait for more bytes of a candidate message, keeping what is known about it
+    auto incomplete = [&]() -> STATUS {
+        eMyFrameFormat = stMetaData_.eFormat;
+        return STATUS::INCOMPLETE;
+    };
+
+    // The format is an output: pick up that of the candidate message we were waiting on, not whatever the caller's metadata holds
+    stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyFrameFormat;
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -74,7 +83,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 // If the data lands on the abbreviated header CRLF then it can be missed unless it's tested again when there is more data
                 if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }
 
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             if (uiMyByteCount == 0)
@@ -323,7 +332,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
 
                 // Handle RXCONFIGA logs: Normally * signifies the start of the CRC, but
@@ -382,7 +391,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     uiMyByteCount--; // If the data lands on the header CRLF then it can be
                                      // missed unless it's tested again when there is more data
                     stMetaData_.uiLength = uiMyByteCount;
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
                 // New line with abbrev data
                 else if (clInternalFrameBuffer[uiMyByteCount + 1] == OEM4_ABBREV_ASCII_SYNC &&
@@ -416,7 +425,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyByteCount--; // If the data lands on the header CRLF then it can be missed
                                  // unless it's tested again when there is more data
                 stMetaData_.uiLength = static_cast<uint32_t>(clInternalFrameBuffer.size());
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             // End of Abbrev
-- 
2.43.0


From 3e5b3996eb36bb59e1672e2e5bd8de319f4e0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 06/90] fix: binary message completed in a smaller buffer
 overran it

The capacity was only checked when the header had been read; a call made with a
smaller buffer once the rest had arrived copied the whole message regardless.
---
 src/decoders/oem/src/framer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 613b86d..e6b388f 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -295,6 +295,18 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             {
                 if (uiMyCalculatedCrc32 == 0)
                 {
+                    // The buffer provided now may be smaller than the one provided when the header was read
+                    const uint32_t uiOutputLength = bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength;
+                    if (uiFrameBufferSize_ < uiOutputLength)
+                    {
+                        stMetaData_.uiLength = uiOutputLength;
+                        uiMyByteCount = 0;
+                        uiMyExpectedPayloadLength = 0;
+                        uiMyExpectedMessageLength = 0;
+                        ResetState();
+                        return STATUS::BUFFER_FULL;
+                    }
+
                     if (bMyPayloadOnly)
                     {
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
-- 
2.43.0


From 3188d116abf21f4d7260b2b91658a5e3a98b28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:13 +0000
Subject: [PATCH 07/90] fix: abbreviated ASCII framer took a split body line
 for a header

With only '<' buffered the search for the sync byte was not repeated once the
next byte arrived, so the separator check that tells a body line from a header
was skipped.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..04b6dfc 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -69,6 +69,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
                                                                 : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
     };
 
+    // A lone sync byte does not tell yet whether it starts a header or a body line, so FindSync() must look at it again
+    if (clFrameBuffer.size() < 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, 0}; }
+
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
-- 
2.43.0


From f414e86ea81cab2ac9b7805a59783dd8d5489606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:13 +0000
Subject: [PATCH 08/90] fix: abbreviated ASCII response was returned before its
 line feed arrived

A carriage return at the end of the buffer counts as a partial match of the line
ending; the response was returned one byte longer than what was buffered.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 04b6dfc..5ba69d3 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -76,6 +76,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // The line feed may not have arrived yet
+    if (headerCrlfIndex + 2 > clFrameBuffer.size()) { return midLineIncomplete(); }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From 67445c6ef88fb1ea185fef74c99681a465b6145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:19 +0000
Subject: [PATCH 09/90] fix: framer manager returned unknown bytes as part of a
 message

A framer that reported unknown bytes kept its position when another framer was
still waiting for more of the same bytes. Its next message then included them
in front. Let it start over.
---
 src/decoders/common/src/framer_manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..c9b5a94 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -141,8 +141,14 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
                 // If a framer sees a valid, complete frame, then use it immediately
                 if (eStatus == STATUS::SUCCESS) { break; }
             }
-            // Track the smallest offset among framers with UNKNOWN statuses to possibly discard unknown bytes later
-            else if (currentMetaData->uiLength < bestOffset) { bestOffset = currentMetaData->uiLength; }
+            else
+            {
+                // This framer moved past bytes that stay in the buffer if another framer is still waiting on them, so it must start over
+                framer.framerInstance->InitAttributes();
+                framer.framerInstance->ResetState();
+                // Track the smallest offset among framers with UNKNOWN statuses to possibly discard unknown bytes later
+                if (currentMetaData->uiLength < bestOffset) { bestOffset = currentMetaData->uiLength; }
+            }
         }
 
         assert((bestStatus == STATUS::UNKNOWN && bestFramerIndex == registrySize) ||
-- 
2.43.0


From bf5dd977845aa053e6ef95a7badeac50003fd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 10/90] fix: ASCII framers accepted messages over the maximum
 length

Whether a message longer than the limit was framed or discarded depended on how
much of the stream had been buffered when it was looked at. Apply the limit to
the message itself.
---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 3 ++-
 src/decoders/oem/src/framer_abb_ascii.cpp               | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..75d680b 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -88,7 +88,8 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
             uiCrcDelimIndex = clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, uiCrcDelimIndex + 1, MaxMessageLength);
         }
 
-        if (uiCrcDelimIndex == UCharFixedBuffer::npos)
+        // A message must end within the maximum length, no matter how much of the stream is buffered already
+        if (uiCrcDelimIndex == UCharFixedBuffer::npos || uiCrcDelimIndex + uiCrcTrailerLength > MaxMessageLength)
         {
             return uiBufferSize >= MaxMessageLength ? Result{Result::Status::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}
                                                     : Result{Result::Status::INCOMPLETE, HeaderFormat, uiBufferSize};
diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 5ba69d3..a83f95b 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -99,6 +99,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
 
     if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    // A message must end within the maximum length, no matter how much of the stream is buffered already
+    if (uiCrlfIndex + 2 > MAX_ASCII_MESSAGE_LENGTH) { return Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}; }
+
     if (clFrameBuffer.size() <= uiCrlfIndex + 3) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex}; }
 
     return Result{ReturnStatus::COMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex + 2};
-- 
2.43.0


From 1e5489d80d3341ac2015ef81b2e9904b8518d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:35 +0000
Subject: [PATCH 11/90] fix: abbreviated ASCII first line was accepted past the
 maximum length

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index a83f95b..9aa8636 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -79,6 +79,9 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     // The line feed may not have arrived yet
     if (headerCrlfIndex + 2 > clFrameBuffer.size()) { return midLineIncomplete(); }
 
+    // The first line must end within the maximum length, no matter how much of the stream is buffered already
+    if (headerCrlfIndex + 2 > MAX_ASCII_MESSAGE_LENGTH) { return Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}; }
+
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
     // If we reach this point, then the message is not a response
-- 
2.43.0


From dbf8f2e4d2d0497c8c877cb73079647dd7747584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:10 +0000
Subject: [PATCH 12/90] fix: a zero-sized buffer left the framers in an
 inconsistent state

---
 src/decoders/common/src/framer.cpp | 3 +++
 src/decoders/oem/src/framer.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 501f37f..616ab58 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -38,6 +38,9 @@ using namespace novatel::edie;
     const auto& clInternalFrameBuffer = *pclMyBuffer;
     if (clInternalFrameBuffer.empty()) { return STATUS::BUFFER_EMPTY; }
 
+    // Without any room not even unknown bytes can be handed out
+    if (uiFrameBufferSize_ == 0) { return STATUS::BUFFER_FULL; }
+
     // Helper to set metadata and handle unknown bytes
     auto handleUnknown = [&](uint32_t length) -> STATUS {
         length = std::min(length, uiFrameBufferSize_); // Never hand out more than the provided buffer can hold
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index e6b388f..8ce49bd 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -53,6 +53,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // Without any room not even unknown bytes can be handed out
+    if (uiFrameBufferSize_ == 0 && !clInternalFrameBuffer.empty()) { return STATUS::BUFFER_FULL; }
+
     // Helper to set metadata and hand out unknown bytes, never more than the provided buffer can hold
     auto handleUnknown = [&](uint32_t uiLength_) -> STATUS {
         uiLength_ = std::min(uiLength_, uiFrameBufferSize_);
-- 
2.43.0


From 19504799864357f8c95ca006f72a99ed14da9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 13/90] fix: removing a definition hid others sharing its name
 or ID

---
 .../decoders/common/message_database.hpp         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..190b468 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -976,6 +976,14 @@ class MessageDatabase
 
         const auto itId = mMessageId.find(msg_.logID);
         if (itId != mMessageId.end()) { mMessageId.erase(itId); }
+
+        // Another definition may share the name or ID
+        for (const auto& other : vMessageDefinitions)
+        {
+            if (other.get() == &msg_) { continue; }
+            if (other->name == msg_.name) { mMessageName[other->name] = other; }
+            if (other->logID == msg_.logID) { mMessageId[other->logID] = other; }
+        }
     }
 
     void RemoveEnumerationMapping(const EnumDefinition& enm_)
@@ -986,6 +994,14 @@ class MessageDatabase
 
         const auto itId = mEnumId.find(enm_._id);
         if (itId != mEnumId.end()) { mEnumId.erase(itId); }
+
+        // Another definition may share the name or ID
+        for (const auto& other : vEnumDefinitions)
+        {
+            if (other.get() == &enm_) { continue; }
+            if (other->name == enm_.name) { mEnumName[other->name] = other; }
+            if (other->_id == enm_._id) { mEnumId[other->_id] = other; }
+        }
     }
 
     std::vector<MessageDefinition::ConstPtr>::iterator GetMessageIt(uint32_t iMsgId_)
-- 
2.43.0


From ea59dc4bc98447083c3392a3b2cb61cf1bb48a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 14/90] fix: changing the message family did not lay out nested
 fields anew

---
 src/decoders/common/src/message_database.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..c41e202 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -219,9 +219,23 @@ FieldInfo::ConstPtr BuildFieldInfo(std::vector<BaseField::Ptr> fields, std::stri
             fixedBytes += f->dataType.length * arrayField->arrayLength;
             break;
         }
+        case FIELD_TYPE::FIELD_ARRAY:
+            // The layout of the nested fields depends on the message family as well
+            if (auto* fieldArray = dynamic_cast<FieldArrayField*>(f.get()); fieldArray != nullptr && fieldArray->fieldInfo != nullptr)
+            {
+                std::vector<BaseField::Ptr> nestedFields;
+                nestedFields.reserve(fieldArray->fieldInfo->messageOrderedFields.size());
+                for (const auto& nested : fieldArray->fieldInfo->messageOrderedFields)
+                {
+                    nestedFields.emplace_back(std::const_pointer_cast<BaseField>(nested));
+                }
+                fieldArray->fieldInfo = BuildFieldInfo(std::move(nestedFields), messageFamily);
+            }
+            f->index = varFields;
+            varFields++;
+            break;
         case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
         case FIELD_TYPE::STRING: [[fallthrough]];
-        case FIELD_TYPE::FIELD_ARRAY: [[fallthrough]];
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
             f->index = varFields;
             varFields++;
-- 
2.43.0


From 52afb53845c7ab818e72bf3081fdf324cf246b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 15/90] fix: enumeration fields kept referring to a replaced
 enumeration

---
 include/novatel_edie/decoders/common/message_database.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 190b468..960a515 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -803,6 +803,7 @@ class MessageDatabase
             mEnumName[enmDef->name] = enmDef;
             mEnumId[enmDef->_id] = enmDef;
         }
+        GenerateMessageMappings(); // Fields refer to the enumerations by ID
     }
 
     //----------------------------------------------------------------------------
-- 
2.43.0


From 2053feb5f9c037f9cd3596a518f58e6370a17382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 16/90] fix: message names with a two-digit sibling were not
 recognised

---
 src/decoders/common/src/message_database.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index c41e202..05cfc1f 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -64,10 +64,20 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiResponse;
 
     // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    // The sibling ID is a number of one or two digits
+    const size_t ullSeparator = sMsgName_.find_last_of('_');
+    if (ullSeparator != std::string::npos)
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        const size_t ullDigits = sMsgName_.size() - ullSeparator - 1;
+        const bool bIsNumber = std::all_of(sMsgName_.begin() + ullSeparator + 1, sMsgName_.end(), [](unsigned char c) { return std::isdigit(c) != 0; });
+        if (bIsNumber && (ullDigits == 1 || ullDigits == 2))
+        {
+            for (size_t i = ullSeparator + 1; i < sMsgName_.size(); ++i)
+            {
+                uiSiblingId = uiSiblingId * 10 + static_cast<uint32_t>(sMsgName_[i] - '0');
+            }
+            sMsgName_.resize(ullSeparator);
+        }
     }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
-- 
2.43.0


From a6b667252b5fd1815463d5cdbbd8bbf174a48478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 17/90] fix: times in text headers could lose a millisecond

The product of the seconds and 1000 is often just below the intended
whole number of milliseconds, and was then truncated.
---
 src/decoders/oem/src/header_decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..905919d 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/header_decoder.hpp"
 
 #include <charconv>
+#include <cmath>
 
 #include <simdjson.h>
 
@@ -150,7 +151,7 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
             pclMyLogger->debug("Failed to parse SECONDS.");
             return false;
         }
-        stInterHeader_.dMilliseconds = 1000.0 * dSeconds;
+        stInterHeader_.dMilliseconds = std::round(1000.0 * dSeconds);
         break;
     }
     case ASCII_HEADER::RECEIVER_STATUS: {
@@ -249,7 +250,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (clJsonHeader_["week"].get(week) == simdjson::SUCCESS) { stInterHeader_.usWeek = static_cast<uint16_t>(week); }
 
     double seconds;
-    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = seconds * 1000.0; }
+    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = std::round(seconds * 1000.0); }
 
     int64_t receiverStatus;
     if (clJsonHeader_["receiver_status"].get(receiverStatus) == simdjson::SUCCESS)
-- 
2.43.0


From 3519d57ddf7fb905bb507bcbd12644356f46a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 18/90] fix: decoding a header kept values of the previously
 decoded one

Formats that do not carry every header field left the others as the
previous message had set them, in both the header and the meta data.
---
 src/decoders/oem/src/header_decoder.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 905919d..69bef93 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -284,6 +284,10 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
+    // Fields that this header's format does not carry must not keep the values of a previous header
+    stInterHeader_ = IntermediateHeader{};
+    stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
+
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
     auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
@@ -326,6 +330,13 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         if (strncmp(pcTempBuf, "OK", 2) == 0 || strncmp(pcTempBuf, "ERROR", 5) == 0)
         {
             stMetaData_.bResponse = true;
+            stMetaData_.ucSiblingId = NULL_SIBLING_ID;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
+            stMetaData_.usWeek = 0;
+            stMetaData_.dMilliseconds = 0.0;
+            stMetaData_.usMessageId = 0;
+            stMetaData_.uiMessageCrc = 0;
+            stMetaData_.uiBinaryMsgLength = 0;
             stMetaData_.messageName = "UNKNOWN";
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
@@ -385,14 +396,11 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         break;
 
     case HEADER_FORMAT::SHORT_BINARY: {
-        // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-        stInterHeader_.ucMessageType = 0;
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
         stInterHeader_.usLength = stBinaryShortHeader.ucLength;
         stInterHeader_.usMessageId = stBinaryShortHeader.usMessageId;
         stInterHeader_.usWeek = stBinaryShortHeader.usWeekNo;
         stInterHeader_.dMilliseconds = stBinaryShortHeader.uiWeekMSec;
-        stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
         pcTempBuf += sizeof(Oem4BinaryShortHeader);
         break;
     }
-- 
2.43.0


From 96672a6cf5126221cf5d9f0a5b1ad8f1aed58ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/90] fix: looking up an empty message name read out of
 bounds

---
 src/decoders/common/src/message_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index 05cfc1f..ac32e1a 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -90,7 +90,7 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
-    switch (sMsgName_.back())
+    switch (sMsgName_.empty() ? '\0' : sMsgName_.back())
     {
     case 'R': // ASCII Response
         uiResponse = static_cast<uint32_t>(true);
-- 
2.43.0


From 212ff8ebc262999e72ef3fe5e3c00b4b3525d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 20/90] fix: a message decoder constructed with a database
 never loaded it

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 3 +--
 src/decoders/common/src/message_decoder.cpp              | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..f9ba791 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1730,8 +1730,7 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
         if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..ded546c 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -35,7 +35,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From 380d25e8bd808e8a2ad6475cd3b25c348a451df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 21/90] fix: decoding a message kept content of the previously
 decoded one

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index ded546c..45e77bc 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -930,7 +930,8 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     const uint32_t uiMessageCrc = stMetaData_.bResponse ? 0 : stMetaData_.uiMessageCrc;
     const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
 
-    stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
+    // Start from an empty message: fields that are not present in the input must not keep values of a previously decoded message
+    stInterMessage_ = CompositeField(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
 
     // Decode the detected format
-- 
2.43.0


From 3e303ad5346fc3581abb8a0636a03e7bac5c99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 22/90] fix: encoding a message overran buffers too small for
 header and body together

---
 src/decoders/oem/src/encoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..9f8f6a4 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -451,8 +451,9 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -463,6 +464,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
-- 
2.43.0


From 8b845b55ad54d843bde75bafb5ac72559e7d3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 23/90] fix: binary strings were padded according to the
 address of the output buffer

---
 include/novatel_edie/decoders/common/encoder.hpp | 9 +++++++--
 include/novatel_edie/decoders/oem/encoder.hpp    | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..f7dc9df 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -316,6 +316,7 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] start_ The start of the encoded body the padding is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -325,7 +326,11 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* start, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
@@ -438,7 +443,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..d08c3be 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -52,6 +52,7 @@ class Encoder : public EncoderBase<Encoder>
     //! \brief Add padding after binary string fields to maintain alignment. OEM
     //!     strings maintain 4-byte alignment.
     //
+    //! \param[in] start_ The start of the encoded body the padding is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -61,10 +62,10 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* start, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
-        return true;
+        // At least one byte: the terminating NUL
+        return SetInBuffer(ptr, uiBytesLeft_, 0, 4 - static_cast<uint32_t>((*ptr - start) % 4));
     }
 
   protected:
-- 
2.43.0


From cdaa087a54ca60e9011cf6de3e4b0901a6abda01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 24/90] fix: alignment gaps of encoded binary bodies exposed
 old buffer content

---
 include/novatel_edie/decoders/common/encoder.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index f7dc9df..dd7576f 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -340,9 +340,7 @@ template <typename Derived> class EncoderBase
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
             if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            return SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
-- 
2.43.0


From af99ab815d0ed340eae99a430a238397f66f3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 25/90] fix: empty fixed-size fields and response strings could
 not be encoded to binary

---
 include/novatel_edie/decoders/common/encoder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index dd7576f..fe4f7b9 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -450,8 +450,10 @@ template <typename Derived> class EncoderBase
             else
             {
                 // All other fields (SIMPLE, ENUM, RESPONSE_ID, RESPONSE_STR, FIXED_LENGTH_ARRAY): copy bytes directly
-                // Note: the following check assumes none of the aforementioned field types can be empty
-                if (!stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_)) { return false; }
+                if (stInterMessage_.GetFieldByteSize(fieldDefRef) > 0 && !stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_))
+                {
+                    return false;
+                }
             }
         }
 
-- 
2.43.0


From 02eac544843124031e63890e7026fc392ffd020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 26/90] fix: messages and rows without fields were encoded to
 malformed text

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 src/decoders/oem/src/encoder.cpp                 | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index fe4f7b9..1fffa47 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -844,6 +844,7 @@ template <typename Derived> class EncoderBase
             }
         }
 
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
         *(*ppcOutBuf_ - 1) = '}';
         return true;
     }
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 9f8f6a4..a7d6b7c 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -556,7 +556,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
+        if (!fieldDefinitions.empty()) // Remove last delimiter ','
+        {
+            pcTempBuffer--;
+            uiBufferSize_++;
+        }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
@@ -567,6 +571,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<true>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
         pcTempBuffer--; // Remove last delimiter ' '
+        uiBufferSize_++;
         if (!CopyToBuffer(&pcTempBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         pucTempBuffer = reinterpret_cast<unsigned char*>(pcTempBuffer);
         break;
-- 
2.43.0


From 7d2787011a7b4d50a8ec27490b70d95364b93a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 27/90] fix: short headers of messages without a definition
 dereferenced a null pointer

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index a7d6b7c..437883b 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -346,7 +346,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -364,7 +365,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From 14baddbfea299b2d23ccaede17c0fae0556afd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 28/90] fix: alignment of zero-length types divided by zero

---
 include/novatel_edie/decoders/oem/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..26b333c 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -132,6 +132,7 @@ enum class CONSTELLATION
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
     size_t alignment = std::min(size_t{4}, size);
+    if (alignment == 0) { return 0; }
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
 };
-- 
2.43.0


From d3e44ffca51886b1b83289712c61a94ce771586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 29/90] fix: enumeration values with the top bit set were
 encoded as UNKNOWN

---
 .../novatel_edie/decoders/common/encoder.hpp  | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 1fffa47..bbd67dc 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -522,6 +522,18 @@ template <typename Derived> class EncoderBase
         return WriteAsciiValue<Json>(fd_, cf_, ppcOutBuf_, uiBytesLeft_, index);
     }
 
+    // Enumerators are unsigned: narrow enumeration fields must not be sign extended
+    [[nodiscard]] static uint32_t GetEnumFieldValue(const BaseField& fieldDef_, const CompositeField& cf_)
+    {
+        switch (fieldDef_.dataType.length)
+        {
+        case 1: return static_cast<uint8_t>(cf_.GetFieldValue<int8_t>(fieldDef_));
+        case 2: return static_cast<uint16_t>(cf_.GetFieldValue<int16_t>(fieldDef_));
+        case 4: return static_cast<uint32_t>(cf_.GetFieldValue<int32_t>(fieldDef_));
+        default: throw std::runtime_error("GetEnumFieldValue(): unsupported enum width");
+        }
+    }
+
     template <bool Abbreviated>
     [[nodiscard]] bool EncodeAsciiField(const BaseField& fieldDefRef_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_) const
     {
@@ -532,10 +544,7 @@ template <typename Derived> class EncoderBase
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
             std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumFieldValue(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, enumString, separator);
         }
 
@@ -713,10 +722,7 @@ template <typename Derived> class EncoderBase
             auto enumFieldPtr = dynamic_cast<const EnumField*>(&fieldDefRef_);
             if (!enumFieldPtr) return false;
             std::string_view enumString;
-            SimpleTypeVisitor(fieldDefRef_, [&](auto&& arg) {
-                enumString =
-                    GetEnumString(enumFieldPtr->enumDef, static_cast<uint32_t>(cf_.GetFieldValue<std::decay_t<decltype(arg)>>(fieldDefRef_)));
-            });
+            enumString = GetEnumString(enumFieldPtr->enumDef, GetEnumFieldValue(fieldDefRef_, cf_));
             return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', enumString, "\",");
         }
 
-- 
2.43.0


From c8fd3376f52eb02bce9f100481528b26a8714ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 30/90] fix: decoding a binary message read past its end

---
 .../decoders/common/message_decoder.hpp       | 11 ++++++
 src/decoders/common/src/message_decoder.cpp   | 35 ++++++++++++++-----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f9ba791..6bc9070 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1713,6 +1713,17 @@ class MessageDecoderBase
     //! \param[in] stMetaData_ The metadata containing the message ID to look up.
     //! \return A pointer to the message definition.
     //----------------------------------------------------------------------------
+    //! \brief Check that an array length field lies within the remaining message.
+    [[nodiscard]] bool HasArrayLength(const unsigned char* pucTempStart, const unsigned char* pucLogBuf_, const ArrayField& arrayDef,
+                                      size_t bytesLeft_) const
+    {
+        if (!arrayDef.arrayLengthRef.empty()) { return true; }
+        const std::size_t lenBytes = arrayDef.arrayLengthFieldSize;
+        if (lenBytes > sizeof(uint32_t)) { return true; } // Rejected by GetArrayLength()
+        return fMyAlignmentFunc(lenBytes, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(pucLogBuf_)) + lenBytes <=
+               bytesLeft_;
+    }
+
     virtual MessageDefinition::ConstPtr GetMessageDefinition(MetaDataBase& stMetaData_) const
     {
         if (pclMyMsgDb == nullptr) { throw std::runtime_error("GetMessageDefinition(): no message database loaded"); }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 45e77bc..ed8044f 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -274,6 +274,10 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                                  const uint32_t uiMessageLength_) const
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
+    const auto bytesLeft = [&]() -> size_t {
+        const auto consumed = static_cast<size_t>(*ppucLogBuf_ - pucTempStart);
+        return consumed < uiMessageLength_ ? uiMessageLength_ - consumed : 0;
+    };
 
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
@@ -282,8 +286,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
 
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (field->dataType.length > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (field->dataType.length <= sizeof(uint32_t) && field->dataType.length > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -296,11 +304,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (sizeof(int32_t) > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), bytesLeft()); // Everything after the response id
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             // Binary response string is not null terminated or 4 byte aligned
             *ppucLogBuf_ += sTemp.size();
@@ -308,17 +317,24 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (static_cast<size_t>(uiArraySize) * field->dataType.length > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            const auto& arrayField = dynamic_cast<const ArrayField&>(*field);
+            if (!HasArrayLength(pucTempStart, *ppucLogBuf_, arrayField, bytesLeft())) { return STATUS::MALFORMED_INPUT; }
+            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, arrayField, clCompField_);
+            if (static_cast<size_t>(uiArraySize) * field->dataType.length > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
-            // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
+            // This version of a string is different. It must be null terminated.
+            const auto* pcString = reinterpret_cast<const char*>(*ppucLogBuf_);
+            const void* pcTerminator = std::memchr(pcString, '\0', bytesLeft());
+            if (pcTerminator == nullptr) { return STATUS::MALFORMED_INPUT; }
+            std::string_view sTemp(pcString, static_cast<size_t>(static_cast<const char*>(pcTerminator) - pcString));
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
             *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
@@ -332,11 +348,13 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
+            if (!HasArrayLength(pucTempStart, *ppucLogBuf_, *subFieldDefinitions, bytesLeft())) { return STATUS::MALFORMED_INPUT; }
             const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
-                const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                const size_t totalBytes = static_cast<size_t>(uiArraySize) * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (totalBytes > bytesLeft()) { return STATUS::MALFORMED_INPUT; }
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -345,6 +363,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             }
             else
             {
+                if (uiArraySize > bytesLeft()) { return STATUS::MALFORMED_INPUT; } // Every element takes at least one byte
                 std::vector<CompositeField> vFieldArrayContainer(uiArraySize);
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
@@ -354,7 +373,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                         CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                     vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                                                  static_cast<uint32_t>(bytesLeft()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -953,7 +972,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
+        if (msgFieldInfo.varFieldCount == 0 && msgFieldInfo.fixedFieldBytes <= stMetaData_.uiBinaryMsgLength)
         {
             // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
             stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-- 
2.43.0


From 8fdd0c5cbfdf1240ca29641d89ab69d6c6c3edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 31/90] fix: text in encoded JSON was not escaped

---
 .../novatel_edie/decoders/common/encoder.hpp  | 30 ++++++++++++++++++-
 src/decoders/oem/src/encoder.cpp              | 10 +++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index bbd67dc..0d4fdeb 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -226,6 +226,30 @@ template <typename BufferType> [[nodiscard]] inline bool CopyToBuffer(BufferType
     return true;
 }
 
+// -------------------------------------------------------------------------------------------------------
+template <typename BufferType> [[nodiscard]] bool CopyJsonCharToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, char cItem_)
+{
+    constexpr std::string_view hexDigits = "0123456789abcdef";
+    const auto ucItem = static_cast<unsigned char>(cItem_);
+    if (ucItem == '"' || ucItem == '\\') { return CopyToBuffer(buffer_, uiBytesLeft_, '\\') && CopyToBuffer(buffer_, uiBytesLeft_, cItem_); }
+    if (ucItem < 0x20)
+    {
+        const std::array<char, 6> escaped = {'\\', 'u', '0', '0', hexDigits[ucItem >> 4], hexDigits[ucItem & 0x0F]};
+        return CopyToBuffer(buffer_, uiBytesLeft_, escaped);
+    }
+    return CopyToBuffer(buffer_, uiBytesLeft_, cItem_);
+}
+
+// -------------------------------------------------------------------------------------------------------
+template <typename BufferType> [[nodiscard]] bool CopyJsonTextToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, std::string_view sv)
+{
+    for (const char cItem : sv)
+    {
+        if (!CopyJsonCharToBuffer(buffer_, uiBytesLeft_, cItem)) { return false; }
+    }
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename BufferType, typename... Args> [[nodiscard]] bool CopyAllToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, Args&&... args_)
 {
@@ -837,7 +861,11 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::STRING: {
                 const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
                 const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !CopyJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, str) || !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 437883b..639f3a8 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -260,7 +260,7 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
+        return CopyJsonCharToBuffer(ppcOutBuf_, uiBytesLeft_,
                             fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
                                                                   : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
     };
@@ -269,11 +269,15 @@ void Encoder::InitFieldMaps()
                                                 const MessageDatabase&, size_t offset) {
         if (fd_.dataType.length == 1)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') &&
+                   CopyJsonCharToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))) &&
+                   CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
         }
         if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
+            return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') &&
+                   CopyJsonCharToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset))) &&
+                   CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
         }
         return false;
     };
-- 
2.43.0


From deefb98c16084196eea6dc9a5bdeefcf297809d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 32/90] fix: responses could not be encoded to JSON

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 0d4fdeb..9729721 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -871,6 +871,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
-- 
2.43.0


From e8837ba2771639f1da422e4afd75edae7870b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 33/90] fix: numeric arrays could not be decoded from JSON

---
 src/decoders/common/src/message_decoder.cpp | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index ed8044f..7ee8eca 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -866,7 +866,27 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
                         }
                     }
-                    else { return STATUS::MALFORMED_INPUT; }
+                    else
+                    {
+                        if (fixed && array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
+                        if (!fixed)
+                        {
+                            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                                using T = std::decay_t<decltype(arg)>;
+                                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>(array.size()));
+                            });
+                        }
+                        try
+                        {
+                            size_t i = 0;
+                            for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
+                        }
+                        catch (const std::runtime_error&)
+                        {
+                            return STATUS::MALFORMED_INPUT;
+                        }
+                    }
                 }
             }
             break;
-- 
2.43.0


From 57d853c4118adc64d5f0b67ea4bbc2db207609f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 34/90] fix: 8-byte %e fields were decoded from JSON with 4
 bytes

---
 src/decoders/common/src/message_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 7ee8eca..57f77ed 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -195,7 +195,6 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("UB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("XB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("lf")] = SimpleJsonMapEntry<double>();
-    jsonFieldMap[CalculateBlockCrc32("e")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("le")] = SimpleJsonMapEntry<double>();
     jsonFieldMap[CalculateBlockCrc32("g")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lg")] = SimpleJsonMapEntry<double>();
@@ -211,6 +210,8 @@ void MessageDecoderBase::InitFieldMaps()
         }
     };
 
+    jsonFieldMap[CalculateBlockCrc32("e")] = jsonFieldMap[CalculateBlockCrc32("f")];
+
     jsonFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
                                                 simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
                                                 [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-- 
2.43.0


From c0ec1980faf2865ff0e4f2d3de4ec45778de54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 35/90] fix: single-byte character fields overwrote the fields
 that follow them, and were not read back from JSON

---
 src/decoders/oem/src/message_decoder.cpp | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..ff0cbc8 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -51,6 +51,18 @@ MessageDecoder::MessageDecoder(const MessageDatabase::Ptr& pclMessageDb_) : Mess
     InitOemFieldMaps();
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Store a character in a field of one byte or four
+static void SetCharacter(novatel::edie::CompositeField& clCompField_, const novatel::edie::BaseField& field_, unsigned char ucValue_,
+                         size_t elementIndex_, bool fixed_)
+{
+    novatel::edie::SimpleTypeVisitor(field_, [&](auto tag) {
+        const auto value = static_cast<decltype(tag)>(ucValue_);
+        if (fixed_) { clCompField_.SetArrayElement<true>(field_, elementIndex_, value); }
+        else { clCompField_.SetArrayElement<false>(field_, elementIndex_, value); }
+    });
+}
+
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoder::InitOemFieldMaps()
 {
@@ -62,9 +74,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        SetCharacter(clCompField_, pstMessageDataType_, static_cast<unsigned char>(**ppcToken_), elementIndex_, fixed_);
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
@@ -136,7 +146,18 @@ void MessageDecoder::InitOemFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("c")] = SimpleJsonMapEntry<uint32_t>();
+    jsonFieldMap[CalculateBlockCrc32("c")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        std::string_view sValue;
+        uint64_t ullValue = 0;
+        if (clJsonField_.get(sValue) == simdjson::SUCCESS && !sValue.empty()) { ullValue = static_cast<unsigned char>(sValue.front()); }
+        else if (clJsonField_.get(ullValue) != simdjson::SUCCESS || ullValue > std::numeric_limits<unsigned char>::max())
+        {
+            throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
+        }
+        SetCharacter(clCompField_, pstMessageDataType_, static_cast<unsigned char>(ullValue), elementIndex_, fixed_);
+    };
     jsonFieldMap[CalculateBlockCrc32("k")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lk")] = SimpleJsonMapEntry<double>();
 
-- 
2.43.0


From 85b41837413a26db97a402a949b4240600cd61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 36/90] fix: variable-length character arrays decoded from text
 could not be encoded again

---
 src/decoders/common/src/message_decoder.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 57f77ed..d71f3bb 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -485,6 +485,16 @@ static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** p
     return STATUS::SUCCESS;
 }
 
+// Store the characters of a variable-length array in the type of its elements
+static void SetCharacterArray(CompositeField& clCompField_, const BaseField& field_, std::string_view svValue_)
+{
+    if (field_.dataType.name == DATA_TYPE::CHAR)
+    {
+        clCompField_.SetFieldValue<false>(field_.index, std::vector<int8_t>(svValue_.begin(), svValue_.end()));
+    }
+    else { clCompField_.SetFieldValue<false>(field_.index, std::vector<uint8_t>(svValue_.begin(), svValue_.end())); }
+}
+
 template <bool Abbreviated>
 STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const char** ppcLogBuf_, CompositeField& clCompField_,
                                        const char* pcBufEnd_) const
@@ -623,7 +633,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                else { SetCharacterArray(clCompField_, *field, sDecodedValue); }
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
@@ -797,7 +807,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    else { SetCharacterArray(clCompField_, *field, strValue); }
                 }
             }
             else
-- 
2.43.0


From a491b0cfc662b0231133b3643b7d0e283068ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 37/90] fix: character arrays of signed characters could not be
 encoded

---
 .../novatel_edie/decoders/common/encoder.hpp  | 23 +++++++++++--------
 src/decoders/oem/src/encoder.cpp              |  6 ++++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 9729721..9207b7c 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -546,6 +546,17 @@ template <typename Derived> class EncoderBase
         return WriteAsciiValue<Json>(fd_, cf_, ppcOutBuf_, uiBytesLeft_, index);
     }
 
+    // Whether an element of a character array terminates it
+    [[nodiscard]] static bool IsTerminator(const BaseField& fd_, const CompositeField& cf_, size_t index_)
+    {
+        switch (fd_.dataType.name)
+        {
+        case DATA_TYPE::CHAR: return cf_.GetFieldValue<int8_t>(fd_, index_) == 0;
+        case DATA_TYPE::UCHAR: return cf_.GetFieldValue<uint8_t>(fd_, index_) == 0;
+        default: return false;
+        }
+    }
+
     // Enumerators are unsigned: narrow enumeration fields must not be sign extended
     [[nodiscard]] static uint32_t GetEnumFieldValue(const BaseField& fieldDef_, const CompositeField& cf_)
     {
@@ -590,11 +601,7 @@ template <typename Derived> class EncoderBase
 
             for (size_t i = 0; i < count; i++)
             {
-                if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
-                {
-                    break;
-                }
+                if (fieldDefRef_.isString && IsTerminator(fieldDefRef_, cf_, i)) { break; }
                 if (!WriteAsciiElement(fieldDefRef_, cf_, asciiFieldMap, i, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 if (fieldDefRef_.isCsv && !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, separator)) { return false; }
             }
@@ -768,11 +775,7 @@ template <typename Derived> class EncoderBase
 
             for (size_t i = 0; i < count; i++)
             {
-                if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
-                {
-                    break;
-                }
+                if (fieldDefRef_.isString && IsTerminator(fieldDefRef_, cf_, i)) { break; }
                 if (!WriteAsciiElement<true>(fieldDefRef_, cf_, jsonFieldMap, i, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 if (!fieldDefRef_.isString && !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, ',')) { return false; }
                 wroteAny = true;
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 639f3a8..521f661 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -190,7 +190,11 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        return fd_.dataType.name == DATA_TYPE::CHAR ? WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<int8_t>(fd_, offset))
+                                                    : WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<uint8_t>(fd_, offset));
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-- 
2.43.0


From 38165e4b72caf9a401f53a812e230ef6164ca8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 38/90] fix: variable-length %P arrays of unsigned bytes were
 decoded from JSON to the wrong type

---
 src/decoders/common/src/message_decoder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index d71f3bb..129e792 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -874,7 +874,14 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                                 if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
                                 vDecodedValues.emplace_back(static_cast<int8_t>(value));
                             }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            if (field->dataType.name == DATA_TYPE::CHAR)
+                            {
+                                clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            }
+                            else
+                            {
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<uint8_t>(vDecodedValues.begin(), vDecodedValues.end()));
+                            }
                         }
                     }
                     else
-- 
2.43.0


From 0d32cc7f2583e851a9b06006cb848e4f76a1b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 39/90] fix: floating point fields with a width of 16 or more
 read past a table

---
 include/novatel_edie/decoders/common/encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 9207b7c..fb13c61 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -92,7 +92,7 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     if (!fd_.width.has_value()) { return std::chars_format::scientific; }
 
-    const auto width = fd_.width.value();
+    const auto width = std::min(static_cast<size_t>(fd_.width.value()), powLookup.size() - 1);
     const auto absVal = std::abs(val_);
 
     return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
-- 
2.43.0


From 59b20da70e29f35bd4e9bf46d7680d7bc1872849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 40/90] fix: unreadable array elements and identifiers made the
 message decoder throw

---
 src/decoders/common/src/message_decoder.cpp | 10 +++++++++-
 src/decoders/oem/src/message_decoder.cpp    |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 129e792..263199c 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -657,7 +657,15 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
                     tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
-                    DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
+                    try
+                    {
+                        DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
+                    }
+                    catch (const std::runtime_error&)
+                    {
+                        return STATUS::MALFORMED_INPUT;
+                    }
                     *ppcLogBuf_ += tokenLength + 1;
                 }
             }
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index ff0cbc8..27cb0f1 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -221,7 +221,7 @@ void MessageDecoder::InitOemFieldMaps()
             auto result = std::from_chars(slotView.data(), slotView.data() + slotView.size(), usSlot);
             if (result.ec != std::errc() || result.ptr != slotView.data() + slotView.size())
             {
-                throw std::invalid_argument("Invalid slot value in id field");
+                throw std::runtime_error("Invalid slot value in id field");
             }
 
             // Parse the frequency part
@@ -229,7 +229,7 @@ void MessageDecoder::InitOemFieldMaps()
             result = std::from_chars(freqView.data(), freqView.data() + freqView.size(), sFreq);
             if (result.ec != std::errc() || result.ptr != freqView.data() + freqView.size())
             {
-                throw std::invalid_argument("Invalid frequency value in id field");
+                throw std::runtime_error("Invalid frequency value in id field");
             }
 
             if (sTemp[sDelimiter] == '-') { sFreq = -sFreq; }
@@ -240,7 +240,7 @@ void MessageDecoder::InitOemFieldMaps()
             auto result = std::from_chars(sTemp.data(), sTemp.data() + sTemp.size(), usSlot);
             if (result.ec != std::errc() || result.ptr != sTemp.data() + sTemp.size())
             {
-                throw std::invalid_argument("Invalid slot value in id field");
+                throw std::runtime_error("Invalid slot value in id field");
             }
             sFreq = 0;
         }
-- 
2.43.0


From bd223ed1efe8203c4530492cb4c3ae2671638a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 41/90] fix: short response texts made the message decoder
 throw

---
 src/decoders/common/src/message_decoder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 263199c..3c1f065 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -576,7 +576,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else
+            {
+                sResponse.remove_prefix(std::min(svErrorPrefix.length(), sResponse.length()));
+                clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
+            }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
             bEarlyEndOfMessage = false;
             break;
@@ -791,7 +795,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    sResponse.remove_prefix(std::min(svErrorPrefix.length(), sResponse.length()));
+                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
                 }
             }
             break;
-- 
2.43.0


From 2f956c692d00ddcacb409af855b202172b3006d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 42/90] fix: text arrays with too few elements were filled from
 the checksum

---
 src/decoders/common/src/message_decoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 3c1f065..1bb0c13 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -660,6 +660,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
+                    if (*ppcLogBuf_ >= pcBufEnd_ || (i > 0 && bEarlyEndOfMessage)) { return STATUS::MALFORMED_INPUT; }
                     tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
                     if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
                     try
@@ -670,6 +671,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                     {
                         return STATUS::MALFORMED_INPUT;
                     }
+                    bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
                     *ppcLogBuf_ += tokenLength + 1;
                 }
             }
@@ -714,9 +716,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 pvFieldArrayContainer[i] =
                     CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
                 pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                if (!Abbreviated && *(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; } // Fewer elements than announced
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
+            bEarlyEndOfMessage = (*(*ppcLogBuf_ - 1) == endDelim);
             clCompField_.SetFieldValue(*field, std::move(pvFieldArrayContainer));
             break;
         }
-- 
2.43.0


From 3fc24b0cc3468dc1e5f4b9742b43ea08534e84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 43/90] fix: text fields missing after quoted text or arrays
 were read from the checksum

---
 src/decoders/common/src/message_decoder.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 1bb0c13..89c1cb3 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -519,8 +519,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
         if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
-
         switch (field->type)
         {
         case FIELD_TYPE::SIMPLE:
@@ -582,8 +580,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse));
             }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
-            bEarlyEndOfMessage = false;
-            break;
+            continue;
         }
         case FIELD_TYPE::RESPONSE_STR:
             // Response strings aren't surrounded by double quotes, ensure we get the whole response (skip over certain delimiters in responses)
@@ -612,7 +609,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
 
                 *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+                if (uiArraySize > 0 && (*ppcLogBuf_ >= pcBufEnd_ || *(*ppcLogBuf_ - 1) == endDelim)) { return STATUS::MALFORMED_INPUT; }
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -660,7 +657,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
-                    if (*ppcLogBuf_ >= pcBufEnd_ || (i > 0 && bEarlyEndOfMessage)) { return STATUS::MALFORMED_INPUT; }
+                    if (i > 0 && (*ppcLogBuf_ >= pcBufEnd_ || *(*ppcLogBuf_ - 1) == endDelim)) { return STATUS::MALFORMED_INPUT; }
                     tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
                     if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
                     try
@@ -671,7 +668,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                     {
                         return STATUS::MALFORMED_INPUT;
                     }
-                    bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
                     *ppcLogBuf_ += tokenLength + 1;
                 }
             }
@@ -720,7 +716,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
-            bEarlyEndOfMessage = (*(*ppcLogBuf_ - 1) == endDelim);
             clCompField_.SetFieldValue(*field, std::move(pvFieldArrayContainer));
             break;
         }
@@ -731,7 +726,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
         if constexpr (!Abbreviated)
         {
-            if (bEarlyEndOfMessage) { break; }
+            if (*(*ppcLogBuf_ - 1) == endDelim) { break; } // Early end of message
         }
     }
 
-- 
2.43.0


From 612af243e286a96dc39cc3f1e53bbd2251f95f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 44/90] fix: decoding text arrays of characters or bytes read
 past the end of the message

---
 src/decoders/common/src/message_decoder.cpp | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 89c1cb3..539dd6b 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -402,8 +402,10 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
 
 // -------------------------------------------------------------------------------------------------------
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_,
+                                                const char* pcBufEnd_)
 {
+    if (pcBufEnd_ - *ppcLogBuf_ < static_cast<ptrdiff_t>(uiArraySize_) * 2) { return STATUS::MALFORMED_INPUT; }
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
@@ -417,8 +419,10 @@ static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedVa
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType>
+static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
+    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
     // Escaped '\' character
     if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
     {
@@ -430,6 +434,7 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
     else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
+        if (pcBufEnd_ - *ppcLogBuf_ < 2) { return STATUS::MALFORMED_INPUT; }
         uint32_t uiValueRead = 0;
         if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
 
@@ -448,12 +453,12 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
 static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+                                                uint32_t uiArraySize_, bool fixed_, const char* pcBufEnd_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -462,24 +467,24 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
 }
 
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_, const char* pcBufEnd_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
         if (**ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -617,7 +622,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize, pcBufEnd_);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -631,7 +636,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize, pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
                 else { SetCharacterArray(clCompField_, *field, sDecodedValue); }
@@ -640,8 +645,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed, pcBufEnd_)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed, pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
-- 
2.43.0


From 5994ad983419bd7c8bcbbc17eae7afae10c079fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 45/90] fix: JSON numbers out of the range of their field were
 truncated

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 6bc9070..02452b7 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1645,6 +1645,14 @@ class MessageDecoderBase
         {
             throw std::runtime_error("Failed to decode JSON field '" + field_.name + "'");
         }
+        if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
+        {
+            if (intermediateValue < static_cast<IntermediateType>(std::numeric_limits<T>::min()) ||
+                intermediateValue > static_cast<IntermediateType>(std::numeric_limits<T>::max()))
+            {
+                throw std::runtime_error("JSON field '" + field_.name + "' is out of range");
+            }
+        }
         T value = static_cast<T>(intermediateValue);
         if (fixed_) { vIntermediate_.SetArrayElement<true>(field_, elementIndex_, value); }
         else { vIntermediate_.SetArrayElement<false>(field_, elementIndex_, value); }
-- 
2.43.0


From d836cfd97fe863bed55e8237bff92b9261433ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 46/90] fix: messages that end before their variable-length
 fields could not be encoded again

---
 .../decoders/common/message_decoder.hpp             |  1 +
 src/decoders/common/src/message_decoder.cpp         | 13 ++++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 02452b7..6792abb 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -820,6 +820,7 @@ class CompositeField
                         varFields[fieldDef->index] = std::vector<ValueT>{};
                     });
                     break;
+                case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
                 case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
                 case FIELD_TYPE::ENUM:
                     switch (fieldDef->dataType.length)
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 539dd6b..e32c147 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -370,9 +370,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
-                    vFieldArrayContainer[i] =
-                        CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                    vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                    vFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
                                                   static_cast<uint32_t>(bytesLeft()));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -714,9 +712,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
-                pvFieldArrayContainer[i] =
-                    CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                pvFieldArrayContainer[i] = CompositeField(subFieldDefinitions->fieldInfo);
                 if (!Abbreviated && *(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; } // Fewer elements than announced
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -941,9 +937,8 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
 
             for (simdjson::dom::element element : array)
             {
-                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
+                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo);
                 auto& stSubMessageBody = vFieldArrayContainer.back();
-                stSubMessageBody.SetFieldInfo(subFieldDefinitions->fieldInfo);
 
                 // Recursively decode the subfields
                 STATUS eStatus = DecodeJson(*subFieldDefinitions->fieldInfo, element, stSubMessageBody);
@@ -1005,8 +1000,8 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
 
     // Start from an empty message: fields that are not present in the input must not keep values of a previously decoded message
-    stInterMessage_ = CompositeField(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
+    stInterMessage_ = CompositeField(FieldInfo::ConstPtr(stInterMessage_.GetFieldInfo()));
 
     // Decode the detected format
     switch (stMetaData_.eFormat)
-- 
2.43.0


From 3eec2815788595cfe64b38a2ace20dcd00a8bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 47/90] fix: flattened binary messages did not have a constant
 length with field arrays

---
 include/novatel_edie/decoders/common/encoder.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index fb13c61..80b2e07 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -406,7 +406,7 @@ template <typename Derived> class EncoderBase
                             {
                                 throw std::runtime_error("Expected field definition of type FieldArrayField for FIELD_ARRAY field");
                             }
-                            maxBytes = fieldArrayFieldDef->fieldSize;
+                            maxBytes = static_cast<size_t>(arrayFieldDef->arrayLength) * fieldArrayFieldDef->fieldInfo->fixedFieldBytes;
                             count = fieldVector.size();
                         }
                         else if constexpr (std::is_same_v<ValueType, std::string> || is_specialization_of_v<ValueType, std::vector>)
@@ -450,6 +450,19 @@ template <typename Derived> class EncoderBase
                                     return false;
                                 }
                             }
+                            // The size of a flattened row includes its padding: fill in the remaining rows with empty ones.
+                            if constexpr (Flatten)
+                            {
+                                const CompositeField emptyRow(fieldArrayFieldDef->fieldInfo);
+                                for (size_t i = count; i < arrayFieldDef->arrayLength; ++i)
+                                {
+                                    if (!EncodeBinaryBody<Flatten>(emptyRow, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
+                                                                   uiBytesLeft_))
+                                    {
+                                        return false;
+                                    }
+                                }
+                            }
                         }
                         // VARIABLE_LENGTH_ARRAY, STRING, and flat FIELD_ARRAY
                         else
-- 
2.43.0


From 9394230cdd0ae26890e9f505b0f62a978af46aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 48/90] fix: loading boolean fields other than 0 and 1 was
 undefined behaviour

---
 include/novatel_edie/decoders/common/common.hpp        | 10 +++++++---
 .../novatel_edie/decoders/common/message_decoder.hpp   |  4 +---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/common.hpp b/include/novatel_edie/decoders/common/common.hpp
index f461ba4..3ccecb1 100644
--- a/include/novatel_edie/decoders/common/common.hpp
+++ b/include/novatel_edie/decoders/common/common.hpp
@@ -50,9 +50,13 @@ template <typename T, typename BufferType> inline T LoadValueFromBuffer(const Bu
     static_assert(std::is_same_v<BufferType, char> || std::is_same_v<BufferType, unsigned char> || std::is_same_v<BufferType, std::byte> ||
                       std::is_same_v<BufferType, int8_t> || std::is_same_v<BufferType, uint8_t>,
                   "BufferType must be char, unsigned char, std::byte, int8_t, or uint8_t");
-    T value;
-    std::memcpy(&value, logBuf_, sizeof(T));
-    return value;
+    if constexpr (std::is_same_v<T, bool>) { return static_cast<unsigned char>(*logBuf_) != 0; }
+    else
+    {
+        T value;
+        std::memcpy(&value, logBuf_, sizeof(T));
+        return value;
+    }
 }
 
 inline void ValidateMessageDatabaseFamily(MessageDatabase::ConstPtr pclMessageDb_, std::string_view expectedFamily,
diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 6792abb..6b44c96 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -261,9 +261,7 @@ class FixedFieldRegion
     template <typename T> [[nodiscard]] T Load(size_t byteOffset_) const
     {
         static_assert(std::is_trivially_copyable_v<T> && !is_specialization_of_v<T, TypedBuffer>, "Load only supports trivially copyable types");
-        T value;
-        std::memcpy(&value, data() + byteOffset_, sizeof(T));
-        return value;
+        return LoadValueFromBuffer<T>(data() + byteOffset_);
     }
 
     // ---------------------------------------------------------------------------
-- 
2.43.0


From d0d89dd82b49c2fe1a9f5bc94ee40966bf707be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 49/90] fix: binary bodies longer than their length field were
 encoded with a wrong length

The length was cut to the 16 (short headers: 8) bits of the field, which made
a message nothing can read back. Such messages now cannot be encoded.
---
 src/decoders/oem/src/encoder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 521f661..ec1180a 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 #include "novatel_edie/decoders/oem/crc.hpp"
 
@@ -599,6 +600,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         if (stMessageData_.pucMessageHeader == nullptr) { return STATUS::FAILURE; }
         // Go back and set the length field in the header.
         // TODO: this block of code below is what's blocking us from moving this function to common (can solve this with dynamic casting or CRTP?)
+        const auto uiBodyLength = static_cast<size_t>(pucTempBuffer - *ppucBuffer_);
+        if (uiBodyLength > (IsShortHeaderFormat(eHeaderFormat_) ? std::numeric_limits<uint8_t>::max() : std::numeric_limits<uint16_t>::max()))
+        {
+            return STATUS::FAILURE; // The header cannot state the length of this body
+        }
         if (!IsShortHeaderFormat(eHeaderFormat_))
         {
             auto usLength = static_cast<uint16_t>(pucTempBuffer - *ppucBuffer_);
-- 
2.43.0


From 82336d6d39a32fa5e884c3fb9a792be8558863bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 50/90] fix: abbreviated ASCII responses were encoded without
 their header and body pointers

---
 src/decoders/oem/src/encoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index ec1180a..f29b588 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -448,6 +448,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eFormat_ == ENCODE_FORMAT::ABBREV_ASCII && ((stHeader_.ucMessageType & static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE)) != 0))
     {
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "<")) { return STATUS::BUFFER_FULL; }
+        stMessageData_.pucMessageHeader = *ppucBuffer_;
         stMessageData_.uiMessageHeaderLength = 1;
 
         if (fieldDefinitions.size() <= 1) { return STATUS::MALFORMED_INPUT; }
@@ -456,6 +457,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
+        stMessageData_.pucMessageBody = pucTempEncodeBuffer - (stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength);
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
-- 
2.43.0


From d4f799c699717b5497aafcc98a69508a2de76bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 51/90] fix: a decimation period of zero divided by zero

---
 src/decoders/oem/src/filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..6b30c38 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -287,7 +287,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    return !bMyDecimate || uiMyDecimationPeriodMilliSec == 0 ||
+           bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From b30aa0161b98ec52a9aeda8d69928f171688c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 52/90] fix: filter times and periods given in seconds could
 lose a millisecond

---
 src/decoders/oem/src/filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index 6b30c38..67514c1 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/filter.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
@@ -55,7 +56,7 @@ void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = static_cast<uint32_t>(std::round(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +64,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = static_cast<uint32_t>(std::round(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +89,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(static_cast<uint32_t>(std::round(dPeriodSec_ * 1000.0))); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From 347f11de78c46209b09bb32d46f6796321b2439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 53/90] fix: the parser read beyond the end of a message when
 its header was cut short

---
 include/novatel_edie/decoders/oem/parser.hpp | 2 +-
 src/decoders/oem/src/parser.cpp              | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/parser.hpp b/include/novatel_edie/decoders/oem/parser.hpp
index c470ea8..0b9c518 100644
--- a/include/novatel_edie/decoders/oem/parser.hpp
+++ b/include/novatel_edie/decoders/oem/parser.hpp
@@ -68,7 +68,7 @@ class Parser
 
     std::unique_ptr<unsigned char[]> pcMyEncodeBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
     unsigned char* pucMyEncodeBufferPointer{nullptr};
-    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
+    std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize + 1)}; //!< With room for a terminating NUL.
     unsigned char* pucMyFrameBufferPointer{nullptr};
 
     // Configuration options
diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..32a4a0c 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -138,6 +138,8 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 continue;
             }
 
+            // Text must end where the message does, rather than run into what is left of an earlier one.
+            pucMyFrameBufferPointer[stMetaData_.uiLength] = '\0';
             eStatus = clMyHeaderDecoder.Decode(pucMyFrameBufferPointer, stHeader_, stMetaData_);
             if (eStatus == STATUS::SUCCESS)
             {
-- 
2.43.0


From 591ac55de81dcb1d99496b2a1351fac34f5128d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 54/90] fix: a file parser without a stream dereferenced a null
 pointer

---
 include/novatel_edie/decoders/common/file_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..49faac0 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0


From afed3732352cb9367295c0cb5f2c8903979d9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 55/90] fix: a file parser lost the bytes of an abbreviated
 ASCII message at the end of a file that could not be decoded

---
 include/novatel_edie/decoders/common/file_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 49faac0..dc15d12 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -90,7 +90,8 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
                 if constexpr (std::is_invocable_v<ParserFunc, Args..., bool>)
                 {
                     // For OEM parser, make a final attempt to decode an incomplete abbreviated ASCII message from remaining bytes
-                    return parserFunc_(std::forward<Args>(args_)..., true) == STATUS::SUCCESS ? STATUS::SUCCESS : STATUS::STREAM_EMPTY;
+                    const STATUS eFinal = parserFunc_(std::forward<Args>(args_)..., true);
+                    return eFinal == STATUS::BUFFER_EMPTY ? STATUS::STREAM_EMPTY : eFinal;
                 }
                 return STATUS::STREAM_EMPTY;
             }
-- 
2.43.0


From 64c96aea9c581f495b90b5c6b2b497c4e053ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:24 +0000
Subject: [PATCH 56/90] fix: a commander could not use a database that was
 loaded after its construction

---
 src/decoders/oem/src/commander.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..b3fc541 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -40,7 +40,15 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 // -------------------------------------------------------------------------------------------------------
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
+    if (pclMessageDb_ == nullptr)
+    {
+        pclMyLogger->debug("JSON DB is a nullptr.");
+        return;
+    }
+
     pclMyMsgDb = pclMessageDb_;
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     InitEnumDefinitions();
 }
 
-- 
2.43.0


From c8445e49b7ea565ec867d9a298d57a9e53caeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 57/90] fix: commands with several definitions were encoded
 with an arbitrary one

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index b3fc541..60dc93a 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -93,7 +93,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -148,7 +148,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
-- 
2.43.0


From df8de77b8a4f5d0af55c5a9acf6c9ce620f1438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 58/90] fix: a command without parameters was given its own
 name as parameters

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 60dc93a..78f4ef5 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -73,7 +73,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
     char* pcCmdParams = acCmdParams;
@@ -130,7 +130,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
     unsigned char* pucCmdParams = acCmdParams;
-- 
2.43.0


From 9bb87d52efe4680b8a3d9e02ce319167dd1e150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 59/90] fix: the parameters of long commands were copied beyond
 the end of a buffer

---
 src/decoders/oem/src/commander.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 78f4ef5..3907d50 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -75,11 +75,6 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
     MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(strCmdName);
@@ -95,7 +90,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -132,11 +127,6 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
-
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
 
@@ -150,7 +140,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus = clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From 1481d4b46b02a7e84889a2c7509d7f55d3b359c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 60/90] fix: RXCONFIG messages too short to hold a message were
 read far beyond their end

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..27321b6 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -138,17 +138,20 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
         const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
         ConsumeAbbrevFormatting(&pcTempBuffer);
         pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
+        if (static_cast<uint32_t>(pucTempMessagePointer - pucMessage_) > uiTotalPayloadSize) { return STATUS::MALFORMED_INPUT; }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
         break;
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
+        if (uiTotalPayloadSize < OEM4_ASCII_CRC_LENGTH + 1U + OEM4_ASCII_CRC_LENGTH + 2U) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
+        if (uiTotalPayloadSize < 2U * OEM4_BINARY_CRC_LENGTH) { return STATUS::MALFORMED_INPUT; }
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
         break;
     }
-- 
2.43.0


From 97e2548cafde4b5b7adf7f7ad01b3587af1a31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 61/90] fix: the CRC of a message embedded in an ASCII RXCONFIG
 was left partly uninitialised when it began with zeros

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 27321b6..1b7c8cf 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -176,8 +176,9 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
         // invert ascii crc
         const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
         char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
-        for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
+        const auto stResult = std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
+        stEmbeddedMessageData.insert(stEmbeddedMessageData.end(), pucCRC + OEM4_ASCII_CRC_LENGTH - stResult.ptr, static_cast<uint8_t>('0'));
+        stEmbeddedMessageData.insert(stEmbeddedMessageData.end(), pucCRC, stResult.ptr);
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
         break;
-- 
2.43.0


From edde852b29d3b3f9540fcc87d37f1ab4e783679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 62/90] fix: the CRC of a message embedded in a binary RXCONFIG
 was stored in reverse byte order

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 1b7c8cf..ce3eee9 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -185,10 +185,10 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From 940b13a4fedeeff095d9b7996f3696b0534417fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 63/90] fix: messages embedded in an RXCONFIG were read beyond
 the end of its data

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index ce3eee9..8f0dd97 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -422,12 +422,23 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     if (stMessage_.GetFieldInfo() == nullptr) { return STATUS::MALFORMED_INPUT; }
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
-    const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    const auto uiEmbeddedDataLength = static_cast<uint32_t>(fieldValue.size());
+    // The header decoder does not know where the data ends. Have it end with a NUL, and no earlier than a header would.
+    fieldValue.resize(fieldValue.size() + sizeof(Oem4BinaryHeader) + 1, 0);
     const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
 
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
+    stEmbeddedMetaData_.uiLength = uiEmbeddedDataLength;
+    uint64_t uiRequiredLength = stEmbeddedMetaData_.uiHeaderLength;
+    if (stEmbeddedMetaData_.eFormat == HEADER_FORMAT::BINARY || stEmbeddedMetaData_.eFormat == HEADER_FORMAT::SHORT_BINARY)
+    {
+        uiRequiredLength += static_cast<uint64_t>(stEmbeddedMetaData_.uiBinaryMsgLength) + OEM4_BINARY_CRC_LENGTH;
+    }
+    if (uiRequiredLength > uiEmbeddedDataLength) { return STATUS::MALFORMED_INPUT; }
+
     eStatus = clMyMessageDecoder.Decode(pucEmbeddedDataBuffer + stEmbeddedMetaData_.uiHeaderLength, stEmbeddedMessage, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-- 
2.43.0


From 6981e01730057988f3fb6e0bc8d0a1f181e302cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 64/90] fix: RXCONFIG messages were encoded beyond the end of a
 buffer too small for them

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 8f0dd97..84a8a4e 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -223,6 +223,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -233,6 +234,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -258,6 +260,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -272,6 +275,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -315,6 +319,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -322,6 +327,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -366,6 +372,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -373,6 +380,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
-- 
2.43.0


From c83ccf0179be864fa04b5935eb0819365ade6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 65/90] fix: RXCONFIG messages holding a message with a short
 header were encoded with a broken header

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 84a8a4e..dcc12f5 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -315,8 +315,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
     // -- Encode RXConfig Header --
     // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
-    eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
+    eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -367,9 +366,9 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     stMessageData_.pucMessage = *ppucBuffer_;
 
     // -- Encode RXConfig Header --
+    // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
-    eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
+    eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -386,12 +385,6 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // Backtrack over CRC
     pucTempEncodeBuffer -= OEM4_BINARY_CRC_LENGTH;
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
-    // Fill in Embedded Binary Header length
-    uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
-    auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
-    stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
-    std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
-
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
     auto stRxHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stMessageData_.pucMessageHeader);
-- 
2.43.0


From d5d42ccaac70874b4510e6307c0dcc6c75cfdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 66/90] fix: encoding a message that cannot hold another as an
 RXCONFIG threw an exception

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index dcc12f5..1740916 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -423,6 +423,11 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     if (stMessage_.GetFieldInfo() == nullptr) { return STATUS::MALFORMED_INPUT; }
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
+    if (fieldDefinitions.at(0)->type != FIELD_TYPE::VARIABLE_LENGTH_ARRAY || fieldDefinitions.at(0)->dataType.name != DATA_TYPE::UCHAR ||
+        fieldDefinitions.at(0)->conversion != "%R")
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
     auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
     const auto uiEmbeddedDataLength = static_cast<uint32_t>(fieldValue.size());
     // The header decoder does not know where the data ends. Have it end with a NUL, and no earlier than a header would.
-- 
2.43.0


From a839eb2e3fe0a3e78b2a6a4a39742d8ea7dfd10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 67/90] fix: binary RXCONFIG messages longer than their length
 field can say were encoded

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 1740916..c645f7e 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -387,6 +387,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
+    if (uiRxLength > std::numeric_limits<uint16_t>::max()) { return STATUS::FAILURE; }
     auto stRxHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stMessageData_.pucMessageHeader);
     stRxHeader.usLength = static_cast<uint16_t>(uiRxLength);
     std::memcpy(stMessageData_.pucMessageHeader, &stRxHeader, sizeof(Oem4BinaryHeader));
-- 
2.43.0


From d17523487ee9a24574a62adac55ca2e7302ffe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 68/90] fix: RXCONFIG messages ending within their header were
 decoded together with bytes of earlier ones

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index c645f7e..259267d 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -32,7 +32,7 @@ using namespace novatel::edie::oem;
 // -------------------------------------------------------------------------------------------------------
 RxConfigHandler::RxConfigHandler(const MessageDatabase::Ptr& pclMessageDb_)
     : clMyHeaderDecoder(pclMessageDb_), clMyMessageDecoder(pclMessageDb_), clMyEncoder(pclMessageDb_),
-      pcMyFrameBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize)),
+      pcMyFrameBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize + 1)), // With room for a terminating NUL.
       pcMyEncodeBuffer(std::make_unique<unsigned char[]>(uiInternalBufferSize))
 {
     pclMyLogger = GetBaseLoggerManager()->RegisterLogger("rxconfig_handler");
@@ -489,6 +489,8 @@ RxConfigHandler::Convert(MessageDataStruct& stRxConfigMessageData_, MetaDataStru
     if (eStatus == STATUS::BUFFER_EMPTY || eStatus == STATUS::INCOMPLETE) { return STATUS::BUFFER_EMPTY; }
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
+    pcMyFrameBuffer[stRxConfigMetaData_.uiLength] = '\0';
+
     // Decode the RXCONFIG log.
     eStatus = clMyHeaderDecoder.Decode(pcMyFrameBuffer.get(), stRxConfigHeader, stRxConfigMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
-- 
2.43.0


From 7866d268a5738f78b451a4375825fa1936775208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 69/90] fix: RANGECMP and RANGECMP2 messages were read beyond
 their ends and expanded beyond the room for observations

---
 .../oem/rangecmp/range_decompressor.hpp       |  5 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 50 +++++++++++++++++--
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..d02f9a3 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -98,10 +98,11 @@ class RangeDecompressor
                          double primaryPsr, double primaryDoppler) const;
 
     //! Convert a RANGECMP message into RANGE message.
-    static void RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_);
+    static void RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, uint32_t uiLength_, Range& stRangeMessage_);
 
     //! Convert a RANGECMP2 message into RANGE message.
-    void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
+    void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, uint32_t uiLength_, Range& stRangeMessage_,
+                          const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
     void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..979f4a4 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -31,6 +31,18 @@
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
+namespace {
+
+//! Load a message body that may be shorter than the structure holding it.
+template <typename T> T LoadBody(const unsigned char* pucBody_, const uint32_t uiLength_)
+{
+    T stBody;
+    memcpy(&stBody, pucBody_, std::min<size_t>(uiLength_, sizeof(T)));
+    return stBody;
+}
+
+} // namespace
+
 //------------------------------------------------------------------------------
 RangeDecompressor::RangeDecompressor(MessageDatabase::Ptr pclJsonDb_)
     : clMyHeaderDecoder(pclJsonDb_), clMyMessageDecoder(pclJsonDb_), clMyEncoder(pclJsonDb_)
@@ -359,10 +371,16 @@ void RangeDecompressor::PopulateNextRangeData(RangeData& stRangeData_, const ran
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_)
+void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, const uint32_t uiLength_, Range& stRangeMessage_)
 {
     using namespace rangecmp;
 
+    if (uiLength_ < sizeof(uint32_t) || stRangeCmpMessage_.uiNumberOfObservations > RANGE_RECORD_MAX ||
+        stRangeCmpMessage_.uiNumberOfObservations > (uiLength_ - sizeof(uint32_t)) / sizeof(RangeCmpData))
+    {
+        throw std::runtime_error("More observations than there is room for.");
+    }
+
     //-----------------------------------------------------------------------
     //! Table used to expand the scaled Pseudorange STDs. This is defined
     //! in the RANGECMP documentation:
@@ -405,10 +423,17 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, const uint32_t uiLength_, Range& stRangeMessage_,
+                                         const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp2;
 
+    const uint32_t uiRangeDataBytes = stRangeCmpMessage_.uiNumberOfRangeDataBytes;
+    if (uiLength_ < sizeof(uint32_t) || uiRangeDataBytes > uiLength_ - sizeof(uint32_t) || uiRangeDataBytes > sizeof(stRangeCmpMessage_.aucRangeData))
+    {
+        throw std::runtime_error("More range data than there is room for.");
+    }
+
     //-----------------------------------------------------------------------
     //! Table used to expand the scaled Pseudorange STDs. This is defined
     //! in the RANGECMP2 documentation:
@@ -427,8 +452,10 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiRangeDataBytesDecompressed = 0;
-    while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
+    while (uiRangeDataBytesDecompressed < uiRangeDataBytes)
     {
+        if (sizeof(SatelliteBlock) > uiRangeDataBytes - uiRangeDataBytesDecompressed) { throw std::runtime_error("Incomplete satellite block."); }
+
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -441,6 +468,12 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 
         uiRangeDataBytesDecompressed += sizeof(SatelliteBlock);
 
+        if (ucSignalBlockCount * sizeof(SignalBlock) > uiRangeDataBytes - uiRangeDataBytesDecompressed ||
+            ucSignalBlockCount > RANGE_RECORD_MAX - stRangeMessage_.uiNumberOfObservations)
+        {
+            throw std::runtime_error("More signal blocks than there is room for.");
+        }
+
         // Decompress the Signal Blocks associated with the Satellite Block
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
@@ -757,6 +790,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
+    uint32_t uiBodyLength = stMetaData_.uiBinaryMsgLength;
     // If the message is not in binary format, we need to ensure that it is encoded to binary so that it can be decompressed.
     if (eFormat != HEADER_FORMAT::BINARY)
     {
@@ -768,16 +802,22 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
+        uiBodyLength = stMessageData.uiMessageBodyLength - OEM4_BINARY_CRC_LENGTH;
     }
 
+    const auto uiRoom = static_cast<uint32_t>(uiBufferSize_ - (pucTempMessagePointer - pucBuffer_));
+    if (uiBodyLength > uiRoom) { return STATUS::DECOMPRESSION_FAILURE; }
+
     // Convert the RANGECMP* message to a RANGE message.
     try
     {
         Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID: RangeCmpToRange(LoadBody<rangecmp::RangeCmp>(pucTempMessagePointer, uiBodyLength), uiBodyLength, stRange); break;
+        case RANGECMP2_MSG_ID:
+            RangeCmp2ToRange(LoadBody<rangecmp2::RangeCmp>(pucTempMessagePointer, uiBodyLength), uiBodyLength, stRange, stMetaData_);
+            break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
         case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
         case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-- 
2.43.0


From dbaced28d306995539d884f079daceda05b35aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 70/90] fix: RANGECMP4 and RANGECMP5 messages were read beyond
 their ends and expanded beyond the room for observations

---
 .../oem/rangecmp/range_decompressor.hpp       |  4 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 39 +++++++++++++------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index d02f9a3..9b299d7 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -105,10 +105,10 @@ class RangeDecompressor
                           const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 979f4a4..5abe2d9 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -41,6 +41,21 @@ template <typename T> T LoadBody(const unsigned char* pucBody_, const uint32_t u
     return stBody;
 }
 
+//! The number of bytes in the bitstream of a RANGECMP4 or RANGECMP5 message body.
+uint32_t BitstreamLength(const unsigned char* pucBody_, const uint32_t uiLength_)
+{
+    const uint32_t uiBytes = uiLength_ < sizeof(uint32_t) ? 0 : LoadValueFromBuffer<uint32_t>(pucBody_);
+    if (sizeof(uint32_t) + uiBytes > uiLength_) { throw std::runtime_error("More range data than there is room for."); }
+    return uiBytes;
+}
+
+//! The next unused observation of a RANGE message.
+RangeData& NextRangeData(Range& stRangeMessage_)
+{
+    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("More observations than there is room for."); }
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
 } // namespace
 
 //------------------------------------------------------------------------------
@@ -512,7 +527,8 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, const uint32_t uiLength_, Range& stRangeMessage_,
+                                         const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -529,7 +545,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = BitstreamLength(pucData_, uiLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -539,6 +555,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        if (uiBitsToSkip > uiBytesLeft * 8 - uiBitOffset) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -615,8 +632,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
-                                                  stCtStatus, prn, stRb.first.cGlonassFrequency);
+                            PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn, stRb.first.cGlonassFrequency);
                         }
                         else
                         {
@@ -637,8 +653,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
-                    PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
+                    PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
                     mMyReferenceBlocks[key] = std::pair(stMbHeader, stBlock);
@@ -688,13 +703,14 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, const uint32_t uiLength_, Range& stRangeMessage_,
+                                         const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
+    auto uiBytesLeft = BitstreamLength(pucData_, uiLength_);
     pucData_ += sizeof(uint32_t);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
@@ -755,8 +771,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
-                PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
+                PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
@@ -819,8 +834,8 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
             RangeCmp2ToRange(LoadBody<rangecmp2::RangeCmp>(pucTempMessagePointer, uiBodyLength), uiBodyLength, stRange, stMetaData_);
             break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
-- 
2.43.0


From b11726c30a61c828039f87ff2445853a5e30a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 71/90] fix: a RANGE message larger than the caller's buffer
 was written into it

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 5abe2d9..5ab2344 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -841,6 +841,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
+        if (stMetaData_.uiBinaryMsgLength > uiRoom) { return STATUS::BUFFER_FULL; }
         memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
-- 
2.43.0


From 79e172b4c8cbbac6ede876d5f6597ee13cd2c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 72/90] fix: satellites in the last slot of a RANGECMP4 message
 and the highest GLONASS identifiers of a RANGECMP2 message were rejected by
 assertions

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp     | 4 ++--
 src/decoders/oem/src/rangecmp/channel_tracking_status.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..79ad81c 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -763,8 +763,8 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(system) < 16 && satellite < 128 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
diff --git a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
index e1c3b78..193076c 100644
--- a/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
+++ b/src/decoders/oem/src/rangecmp/channel_tracking_status.cpp
@@ -32,8 +32,8 @@ using namespace novatel::edie::oem;
 //------------------------------------------------------------------------------
 uint64_t ChannelTrackingStatus::MakeKey(const uint32_t prn, const MEASUREMENT_SOURCE source) const
 {
-    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 256 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(eSatelliteSystem) << 14 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(eSatelliteSystem) < 16 && prn < 512 && static_cast<uint64_t>(eSignalType) < 32 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(eSatelliteSystem) << 15 | prn << 6 | static_cast<uint64_t>(eSignalType) << 1 | static_cast<uint64_t>(source);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From dd76d14bb03ea79bffbdfbe5febc9f10c6abeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:04 +0000
Subject: [PATCH 73/90] fix: compressed range messages with short headers were
 not decompressed

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 5ab2344..fc8055d 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -812,8 +812,9 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         eStatus = clMyMessageDecoder.Decode(pucTempMessagePointer, stMessage, stMetaData_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-        eStatus =
-            clMyEncoder.Encode(&pucBuffer_, uiBufferSize_, stHeader, stMessage, stMessageData, stMetaData_.eFormat, ENCODE_FORMAT::FLATTENED_BINARY);
+        // Only the body is of use, but all of its fields together may be too long for a short header.
+        eStatus = clMyEncoder.Encode(&pucBuffer_, uiBufferSize_, stHeader, stMessage, stMessageData, HEADER_FORMAT::BINARY,
+                                     ENCODE_FORMAT::FLATTENED_BINARY);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
-- 
2.43.0


From 65258dca58d818421f8da557f112e2fb93972fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:01 +0000
Subject: [PATCH 74/90] fix: lock times of RANGECMP2 and RANGECMP4 messages
 went wrong at the end of a week

---
 .../decoders/oem/rangecmp/range_decompressor.hpp |  3 +++
 .../oem/src/rangecmp/range_decompressor.cpp      | 16 +++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 9b299d7..f1d9e98 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -67,6 +67,9 @@ class RangeDecompressor
                                     ENCODE_FORMAT eFormat_ = ENCODE_FORMAT::UNSPECIFIED);
 
   private:
+    //! Get the time of a message in milliseconds, which increases over the end of a week.
+    static double GetMilliseconds(const MetaDataStruct& stMetaData_) { return stMetaData_.usWeek * 7.0 * 24 * 3600 * SEC_TO_MILLI_SEC + stMetaData_.dMilliseconds; }
+
     //! Get the lock time for a RANGECMP2 message.
     double GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_, uint32_t uiLockTimeBits_, uint64_t key_);
 
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index fc8055d..754bf66 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -108,11 +108,11 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += GetMilliseconds(stMetaData_) - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
-            stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.dLockTimeSaturatedMilliseconds = GetMilliseconds(stMetaData_);
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -194,6 +194,8 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
     using namespace rangecmp4;
 
+    const double dMilliseconds = GetMilliseconds(stMetaData_);
+
     // Store the lock time if it is different from the once we have currently.
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp4LockTimes[key_];
 
@@ -214,7 +216,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         }
 
         // Record the last bit change and the bitfield that was changed to.
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -222,7 +224,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dMilliseconds;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -230,12 +232,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dMilliseconds;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds = dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From 079d278c8da457a7bd3b301a7358337805e8eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 75/90] fix: reference blocks of RANGECMP4 messages that had
 been cleared were used as reference block 0

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 754bf66..3df7f6c 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -539,9 +539,10 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, const uint32_t
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            if (static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource) { it = mMyReferenceBlocks.erase(it); }
+            else { ++it; }
         }
     }
 
-- 
2.43.0


From ad5596d010e62da1bcf8455af26fc0c03b475f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 76/90] fix: Doppler values of RANGECMP5 messages were
 sign-extended from the wrong bits

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 79ad81c..0dca6e7 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
-- 
2.43.0


From aa1753d66e3ad9fdb444aebf541ad410d54a91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 77/90] fix: Doppler values of GPS L2P signals in RANGECMP2
 messages were infinite

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 0dca6e7..525da1a 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -576,6 +576,7 @@ constexpr double SignalScaling(SYSTEM system, SIGNAL_TYPE signal)
         case SIGNAL_TYPE::GPS_L1C: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L1CA: return 1.0;
         case SIGNAL_TYPE::GPS_L2Y: [[fallthrough]];
+        case SIGNAL_TYPE::GPS_L2P: [[fallthrough]];
         case SIGNAL_TYPE::GPS_L2CM: return 154.0 / 120.0;
         case SIGNAL_TYPE::GPS_L5Q: return 154.0 / 115.0;
         default: return 0.0;
-- 
2.43.0


From 13a19c35691b52ef04f4fc3956cd5861ac0e386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 78/90] fix: satellites were marked as grouped when
 differential blocks of the next satellite in a RANGECMP4 message were skipped

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 3df7f6c..736a67c 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -602,6 +602,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, const uint32_t
 
             const uint32_t prn = PopLsb(satellites) + 1;
             const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);
+            const uint32_t uiFirstObservation = stRangeMessage_.uiNumberOfObservations;
             bool bPrimaryBlock = true;
             double primaryPseudorange{};
             double primaryDoppler{};
@@ -664,11 +665,11 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, const uint32_t
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
-            if (uiIncludedSignalCount > 1 && uiIncludedSignalCount <= stRangeMessage_.uiNumberOfObservations)
+            if (uiIncludedSignalCount > 1)
             {
-                for (uint32_t uiIndex = uiIncludedSignalCount; uiIndex > 0; uiIndex--)
+                for (uint32_t uiIndex = uiFirstObservation; uiIndex < stRangeMessage_.uiNumberOfObservations; uiIndex++)
                 {
-                    stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations - uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
+                    stRangeMessage_.astRangeData[uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
                 }
             }
         }
-- 
2.43.0


From 8f629a9943198a0b1c66e2978eaaefa710a83bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 79/90] fix: headers of short binary and text messages were
 read as far as a long binary header reaches

---
 src/decoders/oem/src/header_decoder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 69bef93..0b4e6d5 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -289,10 +289,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stInterHeader_.uiTimeStatus = static_cast<uint32_t>(TIME_STATUS::UNKNOWN);
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -300,7 +299,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -379,7 +378,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        const auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -394,6 +394,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
+    }
 
     case HEADER_FORMAT::SHORT_BINARY: {
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
-- 
2.43.0


From 1787ac7a4266f9d16aae7c78939a24aa0b178241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:15 +0000
Subject: [PATCH 80/90] fix: GLONASS frequency numbers of RANGECMP messages
 were offset twice

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 736a67c..395ef8c 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -432,7 +432,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
         stRangeData.fCNo = GetBitfield<uint32_t, CNO_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq) + CNO_SCALE_OFFSET;
         stRangeData.sGlonassFrequency = GetBitfield<int16_t, GLONASS_FREQUENCY_MASK>(stRangeCmpData.uiLockTimeCNoGloFreq);
 
-        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency + GLONASS_FREQUENCY_NUMBER_OFFSET);
+        double dWavelength = stCtStatus.GetSignalWavelength(stRangeData.sGlonassFrequency);
         stRangeData.dAdr = stRangeCmpData.uiAdr / ADR_SCALE_FACTOR;
         double dAdrRolls = (stRangeData.dPsr / dWavelength + stRangeData.dAdr) / MAX_VALUE;
         stRangeData.dAdr -= MAX_VALUE * static_cast<uint64_t>(std::round(dAdrRolls));
-- 
2.43.0


From 4734887b954944a424a685b912d3506b95af07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:35 +0000
Subject: [PATCH 81/90] fix: resetting the range decompressor kept the
 reference blocks of RANGECMP4 messages

---
 .../novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index f1d9e98..301d4a0 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -60,6 +60,7 @@ class RangeDecompressor
     {
         for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
         for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
-- 
2.43.0


From 9b436fd3ba5fd2c5a8d78b59c1f0612ef50c4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:07 +0000
Subject: [PATCH 82/90] fix: setting a fixed-length array from a TypedBuffer
 stored the bytes of the buffer object

---
 .../decoders/common/message_decoder.hpp            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 6b44c96..49c5ae4 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1237,10 +1237,20 @@ class CompositeField
             else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
             break;
         default:
-            if constexpr (std::is_trivially_copyable_v<ValueT> || is_specialization_of_v<ValueT, TypedBuffer>)
+            if constexpr (is_specialization_of_v<ValueT, TypedBuffer>)
             {
-                SetFieldValue<true>(fieldDef_.index, std::forward<T>(value_));
+                const auto* arrayField = dynamic_cast<const ArrayField*>(&fieldDef_);
+                if (arrayField == nullptr || value_.size() > arrayField->arrayLength)
+                {
+                    throw std::runtime_error("SetFieldValue<T>(): TypedBuffer does not fit the given field");
+                }
+                using ElementT = decltype(value_[0]);
+                std::vector<std::conditional_t<std::is_same_v<ElementT, bool>, uint8_t, ElementT>> values;
+                values.reserve(value_.size());
+                for (const auto element : value_) { values.push_back(element); }
+                SetFieldValue<true>(fieldDef_.index, std::move(values));
             }
+            else if constexpr (std::is_trivially_copyable_v<ValueT>) { SetFieldValue<true>(fieldDef_.index, std::forward<T>(value_)); }
             else { throw std::runtime_error("SetFieldValue<T>(): type T must be trivially copyable or TypedBuffer specialization"); }
         }
     }
-- 
2.43.0


From 793eddfbd6cf877ebdfa9862025a71771213bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:07 +0000
Subject: [PATCH 83/90] fix: setting an element past the end of a fixed-length
 array overwrote the fields after it

---
 .../novatel_edie/decoders/common/message_decoder.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 49c5ae4..4ec71c8 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1274,7 +1274,15 @@ class CompositeField
     {
         using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
 
-        if constexpr (Fixed) { SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_)); }
+        if constexpr (Fixed)
+        {
+            const auto* arrayField = fieldDef_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY ? dynamic_cast<const ArrayField*>(&fieldDef_) : nullptr;
+            if (elementIndex_ >= (arrayField != nullptr ? arrayField->arrayLength : 1U))
+            {
+                throw std::runtime_error("SetArrayElement(): element index exceeds fixed array length");
+            }
+            SetFieldValue<true>(fieldDef_.index + (elementIndex_ * sizeof(StoredType)), static_cast<StoredType>(value_));
+        }
         else
         {
             if (fieldDef_.index >= varFields.size()) { throw std::runtime_error("SetArrayElement(): varFields index is out of range"); }
-- 
2.43.0


From f43e76fe6632618d1967cc60f4c164b44c871122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:08 +0000
Subject: [PATCH 84/90] fix: the bounds check of a fixed field region could be
 passed by an index near the maximum

---
 .../novatel_edie/decoders/common/message_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 4ec71c8..c474c49 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -277,7 +277,10 @@ class FixedFieldRegion
     {
         static_assert(std::is_trivially_copyable_v<T>, "SetFieldValue only supports trivially copyable types");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ + (n * sizeof(T)) > byteRegion.size()) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || n * sizeof(T) > byteRegion.size() - startIndex_)
+        {
+            throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
+        }
         std::memcpy(byteRegion.data() + startIndex_, values_, n * sizeof(T));
     }
 
@@ -309,7 +312,7 @@ class FixedFieldRegion
         static_assert(!std::is_same_v<T, bool>, "SetFieldValue does not support std::vector<bool>");
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
 
-        if (startIndex_ + (values_.size() * sizeof(T)) > byteRegion.size())
+        if (startIndex_ > byteRegion.size() || values_.size() * sizeof(T) > byteRegion.size() - startIndex_)
         {
             throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
         }
@@ -326,7 +329,10 @@ class FixedFieldRegion
     void SetFieldValue(const size_t startIndex_, std::string&& value_)
     {
         assert(!IsView() && "SetFieldValue() is not permitted on a non-owning FixedFieldRegion view");
-        if (startIndex_ + value_.size() > byteRegion.size()) { throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion"); }
+        if (startIndex_ > byteRegion.size() || value_.size() > byteRegion.size() - startIndex_)
+        {
+            throw std::runtime_error("SetFieldValue(): buffer overflow in FixedFieldRegion");
+        }
         std::memcpy(byteRegion.data() + startIndex_, value_.data(), value_.size());
     }
 };
-- 
2.43.0


From 5436f9d7ee7d11246dd1d1875133aa224d509603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:08 +0000
Subject: [PATCH 85/90] fix: a field array nested in a row could not be read
 through the view of the row

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c474c49..e06618f 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1443,7 +1443,7 @@ template <typename T> inline T FieldArrayRecordView::GetFieldValue(const BaseFie
 
     if (ffRegion != nullptr)
     {
-        if constexpr (std::is_trivially_copyable_v<T> || is_specialization_of_v<T, TypedBuffer>)
+        if constexpr ((std::is_trivially_copyable_v<T> && !std::is_same_v<T, FieldArray>) || is_specialization_of_v<T, TypedBuffer>)
         {
             if constexpr (is_specialization_of_v<T, TypedBuffer>) { return LoadFixedField<T>(*ffRegion, field_, rowOffset); }
             else if (field_.type == FIELD_TYPE::FIXED_LENGTH_ARRAY) { return LoadFixedFieldElement<T>(*ffRegion, elementIndex_, field_, rowOffset); }
-- 
2.43.0


From 4196c8cd7540778a434d4513ec3a66382b9c9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:08 +0000
Subject: [PATCH 86/90] fix: row indices past the end of a field array reached
 other memory

---
 .../decoders/common/message_decoder.hpp       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index e06618f..7c5dcca 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -514,6 +514,12 @@ class FlatFieldArray
         if (fieldInfo_->varFieldCount > 0) { throw std::runtime_error("FlatFieldArray(): fieldInfo must not have variable fields"); }
     }
 
+    size_t RowOffset(size_t row_) const
+    {
+        if (row_ >= size()) { throw std::runtime_error("FlatFieldArray: row index out of bounds"); }
+        return row_ * fieldInfo->fixedFieldBytes;
+    }
+
   public:
     FlatFieldArray(std::vector<std::byte>&& data_, const FieldInfo* fieldInfo_) : fields(std::move(data_)), fieldInfo(fieldInfo_)
     {
@@ -568,7 +574,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> T GetFieldValue(const BaseField& field_, size_t index_) const
     {
-        return LoadFixedField<T>(fields, field_, index_ * fieldInfo->fixedFieldBytes);
+        return LoadFixedField<T>(fields, field_, RowOffset(index_));
     }
 
     // ---------------------------------------------------------------------------
@@ -591,7 +597,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     [[nodiscard]] FieldArrayRecordView operator[](size_t row_) const
     {
-        return FieldArrayRecordView(fields, row_ * fieldInfo->fixedFieldBytes, fieldInfo);
+        return FieldArrayRecordView(fields, RowOffset(row_), fieldInfo);
     }
 
     // ---------------------------------------------------------------------------
@@ -617,7 +623,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, const T* values_, size_t n = 1)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, values_, n);
+        fields.SetFieldValue(RowOffset(fieldIndex_) + startIndex_, values_, n);
     }
 
     // ---------------------------------------------------------------------------
@@ -631,7 +637,7 @@ class FlatFieldArray
     template <typename T, typename = std::enable_if_t<!std::is_pointer_v<T>>>
     void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, const T& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, &value_);
+        fields.SetFieldValue(RowOffset(fieldIndex_) + startIndex_, &value_);
     }
 
     // ---------------------------------------------------------------------------
@@ -645,7 +651,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, std::vector<T>&& values_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, std::move(values_));
+        fields.SetFieldValue(RowOffset(fieldIndex_) + startIndex_, std::move(values_));
     }
 
     // ---------------------------------------------------------------------------
@@ -658,7 +664,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     void SetFieldValue(const size_t fieldIndex_, const size_t startIndex_, std::string&& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + startIndex_, std::move(value_));
+        fields.SetFieldValue(RowOffset(fieldIndex_) + startIndex_, std::move(value_));
     }
 
     // ---------------------------------------------------------------------------
@@ -672,7 +678,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> void SetFieldValue(const size_t fieldIndex_, const BaseField& fd_, T&& value_)
     {
-        fields.SetFieldValue((fieldIndex_ * fieldInfo->fixedFieldBytes) + fd_.index, std::forward<T>(value_));
+        fields.SetFieldValue(RowOffset(fieldIndex_) + fd_.index, std::forward<T>(value_));
     }
 
     struct const_iterator
@@ -1518,6 +1524,7 @@ class FieldArray
         if (const auto* flatArray = std::get_if<FlatFieldArray>(fieldArray)) { return (*flatArray)[index_]; }
         if (const auto* compositeArray = std::get_if<CompositeFieldArray>(fieldArray))
         {
+            if (index_ >= compositeArray->size()) { throw std::runtime_error("FieldArray::operator[]: row index out of bounds"); }
             return FieldArrayRecordView((*compositeArray)[index_], fieldInfo);
         }
         throw std::runtime_error("FieldArray::operator[]: underlying storage is not a FlatFieldArray or CompositeFieldArray");
-- 
2.43.0


From b78210cb5343cc079c890f3309a1c1ab57f15bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:08 +0000
Subject: [PATCH 87/90] fix: setting a field array with a definition beyond the
 object's fields wrote to other memory

---
 include/novatel_edie/decoders/common/message_decoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 7c5dcca..31a4e78 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1244,6 +1244,7 @@ class CompositeField
         case FIELD_TYPE::FIELD_ARRAY:
             if constexpr (std::is_same_v<ValueT, FlatFieldArray> || std::is_same_v<ValueT, CompositeFieldArray>)
             {
+                if (fieldDef_.index >= varFields.size()) { throw std::runtime_error("SetFieldValue(): varFields index is out of range"); }
                 varFields[fieldDef_.index] = std::forward<T>(value_);
             }
             else { throw std::runtime_error("SetFieldValue<T>(): incorrect type given for FIELD_ARRAY"); }
-- 
2.43.0


From fecb29ba966d4fcff8fd4e691895b7c8dddc995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:48 +0000
Subject: [PATCH 88/90] fix: flat structs were not generated for messages with
 satellite identifiers

---
 scripts/gen_flat_cpp_structs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/gen_flat_cpp_structs.py b/scripts/gen_flat_cpp_structs.py
index 2769504..6f8c106 100644
--- a/scripts/gen_flat_cpp_structs.py
+++ b/scripts/gen_flat_cpp_structs.py
@@ -68,6 +68,7 @@ NOVATEL_TO_CTYPES = {
     # NovAtel specific data type conversion
     'HEXBYTE': 'uint8_t',
     'SatelliteId': 'uint32_t',
+    'SATELLITEID': 'uint32_t',
     'RTCMV3_CHAR8': 'int8_t',
     'RTCMV3_UINT8': 'uint8_t',
     'RTCMV3_INT16': 'int16_t'
-- 
2.43.0


From 46f20db058efe9666a9539a39b2aaf8a919bdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:48 +0000
Subject: [PATCH 89/90] fix: generated flat structs did not match the sizes of
 booleans, enumerations and array lengths

---
 scripts/gen_flat_cpp_structs.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scripts/gen_flat_cpp_structs.py b/scripts/gen_flat_cpp_structs.py
index 6f8c106..b03d0e8 100644
--- a/scripts/gen_flat_cpp_structs.py
+++ b/scripts/gen_flat_cpp_structs.py
@@ -47,7 +47,7 @@ WEBSITE_LOGS = ['ALIGNBSLNENU', 'ALIGNBSLNXYZ', 'ALIGNDOP', 'ALMANAC', 'AUTHCODE
 
 NOVATEL_TO_CTYPES = {
     # c++ standard data type conversion
-    'BOOL': 'bool',
+    'BOOL': 'int32_t',  # four bytes in a message
     'BOOLCHAR': 'unsigned char',
     'CHAR': 'char',
     'UCHAR': 'uint8_t',
@@ -109,6 +109,13 @@ def gen_flat_structs(msg_database: dict, out_file: str = 'novatel_message_defini
         fp.write('\n\n#endif //NOVATEL_MESSAGE_DEFINITIONS_HPP\n')
 
 
+def gen_array_length(field: dict):
+    # The length of some arrays is the value of another field.
+    if field.get('arrayLengthRef'):
+        return []
+    return [f'uint{8 * field.get("arrayLengthFieldSize", 4)}_t {field["name"]}_arraylength']
+
+
 def gen_field_defs(fields: dict, msg_name: str):
     global CPP_MSG_DEFS
     msg_fields = []
@@ -120,19 +127,19 @@ def gen_field_defs(fields: dict, msg_name: str):
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}')
         elif field['type'] == 'ENUM':
             #  TODO: Generate a enums.hpp so ENUMS can be translated to a enum type
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["LONG"]} {field["name"]}')
+            msg_fields.append(f'int{8 * field["dataType"]["length"]}_t {field["name"]}')
         elif field['type'] == 'STRING':
             msg_fields.append(f'{NOVATEL_TO_CTYPES["UCHAR"]} {field["name"]}[{field["arrayLength"]}]')
         elif field['type'] == 'FIXED_LENGTH_ARRAY':
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
         elif field['type'] == 'VARIABLE_LENGTH_ARRAY':
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["ULONG"]} {field["name"]}_arraylength')
+            msg_fields += gen_array_length(field)
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
         elif field['type'] == 'FIELD_ARRAY':
             if not field["arrayLength"]:
                 return
             struct_name = f'{msg_name}_{field["name"]}'
-            msg_fields.append(f'{NOVATEL_TO_CTYPES["ULONG"]} {field["name"]}_arraylength')
+            msg_fields += gen_array_length(field)
             msg_fields.append(f'{struct_name} {field["name"]}[{field["arrayLength"]}]')
             gen_field_defs(field['fields'], struct_name)
         else:
-- 
2.43.0


From 1c09cc7b7e8fac7fe70c664f28540444af4a4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:48 +0000
Subject: [PATCH 90/90] fix: generated flat structs left out the padding of
 flattened messages

---
 scripts/gen_flat_cpp_structs.py | 37 ++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/scripts/gen_flat_cpp_structs.py b/scripts/gen_flat_cpp_structs.py
index b03d0e8..79c9943 100644
--- a/scripts/gen_flat_cpp_structs.py
+++ b/scripts/gen_flat_cpp_structs.py
@@ -119,33 +119,64 @@ def gen_array_length(field: dict):
 def gen_field_defs(fields: dict, msg_name: str):
     global CPP_MSG_DEFS
     msg_fields = []
+    size = 0
+
+    def pad(padding: int):
+        nonlocal size
+        if padding:
+            msg_fields.append(f'{NOVATEL_TO_CTYPES["UCHAR"]} _padding{size}[{padding}]')
+        size += padding
+
+    def align(length: int):
+        # Fields are at a multiple of their size, of four if they are larger.
+        pad(-size % min(length, 4) if length else 0)
+
+    def add_array_length(field: dict):
+        nonlocal size
+        array_length = gen_array_length(field)
+        if array_length:
+            align(field.get('arrayLengthFieldSize', 4))
+            size += field.get('arrayLengthFieldSize', 4)
+        msg_fields.extend(array_length)
 
     for field in fields:
+        length = field['dataType']['length']
+        align(length)
         if field['name'] in RESERVED_CPP_NAMES:
             field['name'] = RESERVED_CPP_NAMES[field['name']]
         if field['type'] == 'SIMPLE':
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}')
+            size += length
         elif field['type'] == 'ENUM':
             #  TODO: Generate a enums.hpp so ENUMS can be translated to a enum type
             msg_fields.append(f'int{8 * field["dataType"]["length"]}_t {field["name"]}')
+            size += length
         elif field['type'] == 'STRING':
             msg_fields.append(f'{NOVATEL_TO_CTYPES["UCHAR"]} {field["name"]}[{field["arrayLength"]}]')
+            size += length * field['arrayLength']
+            pad(4 - size % 4)
         elif field['type'] == 'FIXED_LENGTH_ARRAY':
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
+            size += length * field['arrayLength']
         elif field['type'] == 'VARIABLE_LENGTH_ARRAY':
-            msg_fields += gen_array_length(field)
+            add_array_length(field)
             msg_fields.append(f'{NOVATEL_TO_CTYPES[field["dataType"]["name"]]} {field["name"]}[{field["arrayLength"]}]')
+            size += length * field['arrayLength']
         elif field['type'] == 'FIELD_ARRAY':
             if not field["arrayLength"]:
                 return
             struct_name = f'{msg_name}_{field["name"]}'
-            msg_fields += gen_array_length(field)
+            row_size = gen_field_defs(field['fields'], struct_name)
+            if row_size is None:
+                return
+            add_array_length(field)
             msg_fields.append(f'{struct_name} {field["name"]}[{field["arrayLength"]}]')
-            gen_field_defs(field['fields'], struct_name)
+            size += row_size * field['arrayLength']
         else:
             print(f'Unknown type: {field["type"]}')
 
     CPP_MSG_DEFS[msg_name] = msg_fields
+    return size
 
 
 def is_valid_file(parser, arg):
-- 
2.43.0

