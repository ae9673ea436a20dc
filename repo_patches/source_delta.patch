From 0b4cd4a6f368f480734fd774c1f95b52df0d2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 001/118] fix: don't overwrite an existing backup if its
 existence cannot be determined

std::filesystem::exists() returns false when checking fails, so an I/O error
was treated as "path is free" and the subsequent rename replaced the backup.
---
 backuphelper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..2b707cd 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -144,7 +144,13 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
 
         // test whether the backup path is still unused; otherwise continue loop
         if (!std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {
-            break;
+            if (!ec) {
+                break;
+            }
+            // abort if the existence of the backup path cannot be determined to avoid overwriting an existing backup
+            auto error = argsToString("Unable to check whether backup file \"", backupPath, "\" already exists: ", ec.message());
+            backupPath.clear();
+            throw std::ios_base::failure(error);
         }
     }
 
-- 
2.43.0


From 5d0c29bd2b138d564bfe51c93a1285ca91e31be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 002/118] fix: don't leave an incomplete backup behind if
 copying the original file fails

---
 backuphelper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 2b707cd..011e54d 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -166,10 +166,17 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
     if (ec) {
         // try making a copy instead, maybe backup dir is on another partition
         std::filesystem::copy_file(u8originalPath, backupPathForOpen, ec);
+        if (ec && ec != std::errc::file_exists) {
+            // don't leave an incomplete copy behind
+            auto removeError = std::error_code();
+            std::filesystem::remove(backupPathForOpen, removeError);
+        }
     }
     if (ec) {
-        throw std::ios_base::failure(argsToString("Unable to create backup file \"", BasicFileInfo::pathForOpen(backupPath), "\" of \"", originalPath,
-            "\" before rewriting it: " + ec.message()));
+        const auto error = argsToString("Unable to create backup file \"", BasicFileInfo::pathForOpen(backupPath), "\" of \"", originalPath,
+            "\" before rewriting it: " + ec.message());
+        backupPath.clear(); // the backup file has not been created
+        throw std::ios_base::failure(error);
     }
 
     // manage streams
-- 
2.43.0


From 1a54161771e5402ca66e59e0d8056b5ee4473225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 003/118] fix: restore the original file after any kind of
 exception

An exception not derived from Failure or std::ios_base::failure (e.g.
std::bad_alloc or an exception thrown by a progress callback) left the
original file incomplete and only the backup behind.
---
 backuphelper.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 011e54d..17293df 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -194,12 +194,21 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
         backupStream.open(BasicFileInfo::pathForOpen(backupPath).data(), ios_base::in | ios_base::binary);
     } catch (const std::ios_base::failure &failure) {
         // try to restore the previous state in the error case
+        const auto usedBackupPath = std::move(backupPath);
+        backupPath.clear();
         try {
-            restoreOriginalFileFromBackupFile(originalPath, backupPath, originalStream, backupStream);
+            restoreOriginalFileFromBackupFile(originalPath, usedBackupPath, originalStream, backupStream);
         } catch (const std::ios_base::failure &) {
-            throw std::ios_base::failure("Unable to restore original file from backup file \"" % backupPath % "\" after failure: " + failure.what());
+            throw std::ios_base::failure(
+                "Unable to restore original file from backup file \"" % usedBackupPath % "\" after failure: " + failure.what());
         }
         throw std::ios_base::failure(argsToString("Unable to open backup file: ", failure.what()));
+    } catch (...) {
+        // try to restore the previous state in the error case
+        const auto usedBackupPath = std::move(backupPath);
+        backupPath.clear();
+        restoreOriginalFileFromBackupFile(originalPath, usedBackupPath, originalStream, backupStream);
+        throw;
     }
 }
 
@@ -228,8 +237,8 @@ void createBackupFileCanonical(const std::string &backupDir, std::string &origin
  * - Adds appropriate notifications to the specified \a fileInfo.
  * - Re-throws the exception.
  *
- * \remarks Must only be called when an exception derived from Failure or ios_base::failure
- *          has been caught; this method uses the "exception dispatcher" idiom.
+ * \remarks Must only be called when an exception has been caught; this method uses the
+ *          "exception dispatcher" idiom.
  *
  * \param fileInfo Specifies the MediaFileInfo instance which has been modified.
  * \param backupPath Specifies the path of the backup file; might be empty if none has been created.
@@ -306,6 +315,13 @@ void handleFailureAfterFileModifiedCanonical(MediaFileInfo &fileInfo, const std:
             diag.emplace_back(DiagLevel::Critical, "An IO error occurred when applying tag information.", context);
         }
         throw;
+
+    } catch (...) {
+        // restore the original file also in case of any other exception, e.g. std::bad_alloc or an exception thrown by a progress callback
+        if (!backupPath.empty()) {
+            restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 4ba26717ca829232437a164da48a14aa36137c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 004/118] fix: restore the original file if it cannot be
 recreated after moving it away

If opening the original path for writing failed after the backup had been
created, nothing moved the backup back.
---
 matroska/matroskacontainer.cpp | 9 ++++++---
 mediafileinfo.cpp              | 9 ++++++---
 mp4/mp4container.cpp           | 9 ++++++---
 ogg/oggcontainer.cpp           | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..17653cf 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1522,11 +1522,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
     if (rewriteRequired) {
         if (fileInfo().saveFilePath().empty()) {
-            // move current file to temp dir and reopen it as backupStream, recreate original file
+            // move current file to temp dir and reopen it as backupStream
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1568,6 +1566,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
     // start actual writing
     try {
+        // recreate the original file (which has been moved away); needs to happen here so it is restored if this fails
+        if (rewriteRequired && fileInfo().saveFilePath().empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write EBML header
         progress.nextStepOrStop("Writing EBML header ...");
         outputWriter.writeUInt32BE(EbmlIds::Header);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..02937cb 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1786,11 +1786,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
     if (rewriteRequired) {
         if (m_saveFilePath.empty()) {
-            // move current file to temp dir and reopen it as backupStream, recreate original file
+            // move current file to temp dir and reopen it as backupStream
             try {
                 BackupHelper::createBackupFileCanonical(backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1823,6 +1821,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
     // start actual writing
     try {
+        // recreate the original file (which has been moved away); needs to happen here so it is restored if this fails
+        if (rewriteRequired && m_saveFilePath.empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // ensure we can cast padding safely to uint32
         if (padding > numeric_limits<std::uint32_t>::max()) {
             padding = numeric_limits<std::uint32_t>::max();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..f10b9cc 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -543,11 +543,9 @@ calculatePadding:
 
     if (rewriteRequired) {
         if (fileInfo().saveFilePath().empty()) {
-            // move current file to temp dir and reopen it as backupStream, recreate original file
+            // move current file to temp dir and reopen it as backupStream
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -589,6 +587,11 @@ calculatePadding:
 
     // start actual writing
     try {
+        // recreate the original file (which has been moved away); needs to happen here so it is restored if this fails
+        if (rewriteRequired && fileInfo().saveFilePath().empty()) {
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write header
         progress.nextStepOrStop("Writing header and tags ...");
         // -> make file type atom
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..1e34560 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -430,11 +430,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     auto backupStream = NativeFileStream();
 
     if (fileInfo().saveFilePath().empty()) {
-        // move current file to temp dir and reopen it as backupStream, recreate original file
+        // move current file to temp dir and reopen it as backupStream
         try {
             BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, fileInfo().stream(), backupStream);
-            // recreate original file, define buffer variables
-            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(
                 DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -456,6 +454,11 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
     const auto totalFileSize = fileInfo().size();
     try {
+        // recreate the original file (which has been moved away); needs to happen here so it is restored if this fails
+        if (fileInfo().saveFilePath().empty()) {
+            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         progress.nextStepOrStop("Writing Ogg pages ...");
 
         // prepare iterating comments
-- 
2.43.0


From 7e7ea3c02f9b573b3008f5bf0f973c3252d3d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 005/118] fix: don't treat aborting the copying of media data
 as success

CopyHelper::callbackCopy() just returns when aborted so the file was truncated
and reported as successfully written. Also pass the fraction as such.
---
 genericfileelement.h | 1 +
 mediafileinfo.cpp    | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..c52029f 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -954,6 +954,7 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        progress->stopIfAborted();
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 02937cb..46602ad 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1884,7 +1884,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             backupStream.seekg(static_cast<streamoff>(streamOffset));
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
-                std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+                std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), _1));
+            progress.stopIfAborted();
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From 4b60465a88837e96310d1f2938150992c0adae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 006/118] fix: don't swallow errors of deferred write
 operations

Closing the stream does not report errors which occur when writing the data
which is still buffered. So a failing final write was reported as success.
---
 matroska/matroskacontainer.cpp | 2 ++
 mediafileinfo.cpp              | 8 +++++---
 mp4/mp4container.cpp           | 2 ++
 ogg/oggcontainer.cpp           | 3 +++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 17653cf..05b0e9b 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1827,6 +1827,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        // prevent deferring write operations (to catch and handle possible errors here)
+        outputStream.flush();
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 46602ad..04dc2ba 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1903,6 +1903,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
         // handle streams
         if (rewriteRequired) {
+            // prevent deferring final write operations (to catch and handle possible errors here)
+            outputStream.flush();
             // report new size
             reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
             // "save as path" is now the regular path
@@ -1910,14 +1912,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 reportPathChanged(saveFilePath());
                 m_saveFilePath.clear();
             }
-            // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
-            // usage anyways because it is write-only
+            // close stream; it is useless for further usage anyways because it is write-only
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
-                // -> prevent deferring final write operations
+                // -> prevent deferring final write operations (to catch and handle possible errors here)
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index f10b9cc..d739f2f 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -839,6 +839,8 @@ calculatePadding:
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        // prevent deferring write operations (to catch and handle possible errors here)
+        outputStream.flush();
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 1e34560..bc62828 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -691,6 +691,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             }
         }
 
+        // prevent deferring write operations (to catch and handle possible errors here)
+        fileInfo().stream().flush();
+
         // report new size
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         progress.updateStepPercentage(100);
-- 
2.43.0


From ede46d5938c2a0ed11a641c0d729a5f2cba8cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 007/118] fix: don't read beyond the end of ID3v2 frames

When a string was not terminated, Id3v2Frame::parseSubstring() read one or two
bytes past the end of the buffer (and possibly treated an excess byte as an
additional character).
---
 id3/id3v2frame.cpp | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..52786e3 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -931,17 +931,12 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             }
             get<0>(res) += 3;
         }
-        const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *pos = get<0>(res), *const end = get<2>(res);
+        for (; pos < end && *pos != 0x00; ++pos) {
+            ++get<1>(res);
+        }
+        if (pos >= end && addWarnings) {
+            diag.emplace_back(DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +959,15 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *pos = get<0>(res), *const end = get<2>(res);
+        for (; end - pos >= 2 && (pos[0] || pos[1]); pos += 2) {
+            get<1>(res) += 2;
+        }
+        if (end - pos < 2 && addWarnings) {
+            diag.emplace_back(
+                DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From fe7b723b94001315a20c7548ced9ce24afbb16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 008/118] fix: don't drop the last character of unterminated
 ID3v2 URL frames

---
 id3/id3v2frame.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 52786e3..04e6e7d 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -278,13 +278,15 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        // note: Only text frames start with an encoding byte, URL frames do not.
+        const auto startIndex = static_cast<std::size_t>(currentOffset - buffer.get());
+        for (size_t currentIndex = startIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == startIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
-- 
2.43.0


From 8963e51bff037a06b8bd557f975e0e575bf9cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 009/118] fix: don't append zero bytes to ID3v2 comment and
 lyrics frames

The size of the data was added twice so as many zero bytes were written after
the text.
---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 04e6e7d..577d069 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1304,7 +1304,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // calculate needed buffer size and create buffer
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
-    const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
+    const auto requiredBufferSize = 1 + 3 + descriptionSize
         + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
-- 
2.43.0


From dd6375bec92432340837d047600899ae346338b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 010/118] fix: handle flags of ID3v2 frames correctly

The parsed version was never stored so flags of ID3v2.4 frames were interpreted
like ID3v2.3 ones, e.g. a compressed frame was considered encrypted. The frame
size was assumed not to include group byte and decompressed size so the data of
the next frame was consumed. Flags were also not converted when writing another
version and frames which don't get smaller by compressing were rejected.
---
 id3/id3v2frame.cpp | 58 +++++++++++++++++++++++++++++++++++-----------
 id3/id3v2frame.h   |  1 +
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 577d069..8f2c3d4 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -152,6 +152,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 {
     static const string defaultContext("parsing ID3v2 frame");
     string context;
+    uLongf decompressedSize = 0;
+    m_parsedVersion = version; // the meaning of the flags depends on the version
 
     // parse header
     if (version < 3) {
@@ -206,12 +208,27 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read flags and group
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        m_group = 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
             throw VersionNotSupportedException();
         }
+        const auto additionalHeaderSize = (hasGroupInformation() ? 1u : 0u) + (hasDataLengthIndicator() ? 4u : 0u);
+        if (additionalHeaderSize > m_dataSize) {
+            diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
+            throw TruncatedDataException();
+        }
+        if (version < 4 && hasDataLengthIndicator()) {
+            decompressedSize = reader.readUInt32BE();
+        }
+        if (hasGroupInformation()) {
+            m_group = reader.readByte();
+        }
+        if (version >= 4 && hasDataLengthIndicator()) {
+            decompressedSize = reader.readSynchsafeUInt32BE();
+        }
+        m_dataSize -= additionalHeaderSize; // the size denoted by the frame header includes those fields
     }
 
     // add a warning if a frame appears in an ID3v2 tag known not to support it
@@ -234,9 +251,9 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
+        if (decompressedSize / 1032u > m_dataSize) {
+            // avoid allocating an excessive amount of memory for an obviously bogus size
+            diag.emplace_back(DiagLevel::Critical, "The decompressed size exceeds what the compressed data can possibly contain.", context);
             throw InvalidDataException();
         }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
@@ -259,6 +276,10 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
+        if (!decompressedSize) {
+            diag.emplace_back(DiagLevel::Warning, "The decompressed frame size is 0.", context);
+            throw InvalidDataException();
+        }
         if (decompressedSize > maxId3v2FrameDataSize) {
             diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
@@ -509,6 +530,7 @@ static void writePlayCounter(char *last, std::uint32_t playCounterSize, std::uin
 Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagnostics &diag)
     : m_frame(frame)
     , m_frameId(m_frame.id())
+    , m_flag(m_frame.flag())
     , m_version(version)
 {
     const string context("making " % m_frame.idToString() + " frame");
@@ -806,6 +828,16 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
         m_dataSize = m_decompressedSize;
     }
 
+    // make flags; the meaning of the flags depends on the version
+    const auto parsedFlagsAreId3v24 = m_frame.parsedVersion() >= 4;
+    if (version >= 4) {
+        m_flag = static_cast<std::uint16_t>((parsedFlagsAreId3v24 ? (m_flag & 0x7000u) : ((m_flag & 0xE000u) >> 1))
+            | (m_frame.hasGroupInformation() ? 0x40u : 0u) | (m_frame.isCompressed() ? 0x9u : 0u) | (m_frame.isUnsynchronized() ? 0x2u : 0u));
+    } else {
+        m_flag = static_cast<std::uint16_t>((parsedFlagsAreId3v24 ? ((m_flag & 0x7000u) << 1) : (m_flag & 0xE000u))
+            | (m_frame.hasGroupInformation() ? 0x20u : 0u) | (m_frame.isCompressed() ? 0x80u : 0u));
+    }
+
     // calculate required size
     // -> data size
     m_requiredSize = m_dataSize;
@@ -840,21 +872,21 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_dataSize);
     } else {
         writer.writeUInt32BE(m_frameId);
+        // note: The size denoted by the header includes the group byte and the decompressed size.
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
+        }
+        writer.writeUInt16BE(m_flag);
+        if (m_version < 4 && m_frame.isCompressed()) {
+            writer.writeUInt32BE(m_decompressedSize);
         }
-        writer.writeUInt16BE(m_frame.flag());
         if (m_frame.hasGroupInformation()) {
             writer.writeByte(m_frame.group());
         }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
-                writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
-                writer.writeUInt32BE(m_decompressedSize);
-            }
+        if (m_version >= 4 && m_frame.isCompressed()) {
+            writer.writeSynchsafeUInt32BE(m_decompressedSize);
         }
     }
     writer.write(m_data.get(), m_dataSize);
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..5c23b45 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -35,6 +35,7 @@ private:
 
     Id3v2Frame &m_frame;
     std::uint32_t m_frameId;
+    std::uint16_t m_flag;
     const std::uint8_t m_version;
     std::unique_ptr<char[]> m_data;
     std::uint32_t m_dataSize;
-- 
2.43.0


From 900f194f05a0fc0fe9cb6bc1676c75db236d2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 011/118] fix: make the order of ID3v2 frames a strict weak
 ordering

FrameComparer considered a short ID which cannot be converted and a long ID to be
ordered before each other. Hence fields could not be found again, e.g. the
auto-created "TDRC" frame of ID3v2.2 tags.
---
 id3/id3v2tag.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..92c5851 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -724,9 +724,12 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         } else if (!rhsLong) {
             rhs = Id3v2FrameIds::convertToLongId(rhs);
             if (!rhs) {
-                return true;
+                return false;
             }
         }
+        if (lhs == rhs) {
+            return false;
+        }
     }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
-- 
2.43.0


From ebba5ff41d8fae99d7b9b3c741af8d18f889bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 012/118] fix: preserve the image format of ID3v2.2 pictures

---
 id3/id3v2frame.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 8f2c3d4..b6744da 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1072,6 +1072,15 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
+    if (!std::memcmp(buffer + 1, "JPG", 3)) { // the next three bytes store the image format
+        tagValue.setMimeType("image/jpeg");
+    } else if (!std::memcmp(buffer + 1, "PNG", 3)) {
+        tagValue.setMimeType("image/png");
+    } else if (!std::memcmp(buffer + 1, "GIF", 3)) {
+        tagValue.setMimeType("image/gif");
+    } else if (!std::memcmp(buffer + 1, "-->", 3)) {
+        tagValue.setMimeType("-->");
+    }
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
-- 
2.43.0


From 6c1d88072ccc67fc7feaf243372e2b9d86ebaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 013/118] fix: don't ignore values of ID3v1 tags which consist
 of only one character

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..06ccb44 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -278,11 +278,11 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
     const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
+    while (end >= buffer && (*end == 0x0 || *end == ' ')) {
         --end;
         --maxLength;
     }
-    if (buffer == end) {
+    if (end < buffer) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From c319191d335be411d52a975fbe6b541885283d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 014/118] fix: make Id3v1Tag::hasField() aware of the record
 date

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 06ccb44..68d4af4 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From 3291e7210871dd910331b093887d7c62fc67564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 015/118] fix: handle ID3v2 tags with footer correctly

The footer's signature was looked up after the footer and when writing the tag
the footer was still denoted but not present.
---
 id3/id3v2tag.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 92c5851..5a4c146 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -643,9 +643,10 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
@@ -903,8 +904,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without extended header, compression or footer bit set (as those are not written)
+    writer.writeByte(m_tag.flags() & 0xAF);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From 80d816493e3454f1f78c940f5f50826e06e59f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 016/118] fix: consider that the size of extended ID3v2.3
 headers excludes itself

---
 id3/id3v2tag.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 5a4c146..ceb5c9b 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -589,7 +589,11 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
-        m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
+        // note: In ID3v2.3 the size excludes the size denotation itself and is not synchsafe.
+        m_extendedHeaderSize = majorVersion >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        if (majorVersion < 4 && m_extendedHeaderSize <= m_sizeExcludingHeader) {
+            m_extendedHeaderSize += 4;
+        }
         if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
-- 
2.43.0


From f94a87bc6e43256fe3632e54d53dad4102286aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 017/118] fix: keep the order of ID3v2 frames consistent when
 mixing short and long IDs

The position of a frame depended on whether its ID is compared with a short or a
long one. So the order changed whenever the old record date frames of an
ID3v2.2 tag were re-created.
---
 id3/id3v2tag.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index ceb5c9b..b5d3132 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -718,24 +718,20 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         return false;
     }
 
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
+    // convert short IDs if possible so the order is consistent regardless whether short and long IDs are mixed
+    for (auto *const id : { &lhs, &rhs }) {
+        if (!Id3v2FrameIds::isLongId(*id)) {
+            if (const auto longId = Id3v2FrameIds::convertToLongId(*id)) {
+                *id = longId;
             }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return false;
-            }
-        }
-        if (lhs == rhs) {
-            return false;
         }
     }
+    if (lhs == rhs) {
+        return false;
+    }
+    if (const auto lhsLong = Id3v2FrameIds::isLongId(lhs); lhsLong != Id3v2FrameIds::isLongId(rhs)) {
+        return !lhsLong;
+    }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
         return true;
-- 
2.43.0


From 2077088ced7ce9d1341d578c0b59adbf30cca0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 018/118] fix: report the new size after adding an ID3v1 tag

Otherwise the tag is not found (and another one is appended) when the same
MediaFileInfo object is used again.
---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 04dc2ba..06da10b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1706,6 +1706,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here)
             stream().flush();
+            // report new size
+            reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         }
         return;
     }
-- 
2.43.0


From deef30bff57204accd817bad24a87c136c8494d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 019/118] fix: open the file for writing when only the ID3v1
 tag is changed

The stream was not reopened if it had been opened read-only. If it was
closed, reopening it invalidated the tag which was about to be written.
---
 mediafileinfo.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 06da10b..30f6dfd 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1683,10 +1683,16 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             return;
         } else {
             // add or update ID3v1 tag
+            // -> ensure the file is open and not readonly (without invalidating parsing results such as the tag to be written)
+            try {
+                close();
+                stream().open(BasicFileInfo::pathForOpen(path()).data(), ios_base::in | ios_base::out | ios_base::binary);
+            } catch (const std::ios_base::failure &failure) {
+                diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
+                throw;
+            }
             if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
                 progress.updateStep("Updating existing ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
                 stream().seekp(-128, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
@@ -1695,8 +1701,6 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 }
             } else {
                 progress.updateStep("Adding new ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
                 stream().seekp(0, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
-- 
2.43.0


From 0822153883c58da48f465f8112d91f02595f9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 020/118] fix: handle failure to determine the new size of
 MP3/FLAC files

Otherwise the file is not truncated although no error is reported.
---
 mediafileinfo.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 30f6dfd..3e07cbc 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1653,6 +1653,19 @@ void MediaFileInfo::invalidated()
     clearParsingResults();
 }
 
+/*!
+ * \brief Returns the current write offset of the specified \a stream.
+ * \throws Throws std::ios_base::failure when the offset cannot be determined (which is not done by tellp() itself).
+ */
+static std::uint64_t currentWriteOffset(std::ostream &stream)
+{
+    const auto offset = static_cast<std::streamoff>(stream.tellp());
+    if (offset < 0) {
+        throw std::ios_base::failure("Unable to determine the current offset.");
+    }
+    return static_cast<std::uint64_t>(offset);
+}
+
 /*!
  * \brief Internally used to save chanings of MP3/FLAC files and any other files which might have ID3 tags.
  */
@@ -1711,7 +1724,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // prevent deferring final write operations (to catch and handle possible errors here)
             stream().flush();
             // report new size
-            reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
+            reportSizeChanged(currentWriteOffset(stream()));
         }
         return;
     }
@@ -1912,7 +1925,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // prevent deferring final write operations (to catch and handle possible errors here)
             outputStream.flush();
             // report new size
-            reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
+            reportSizeChanged(currentWriteOffset(outputStream));
             // "save as path" is now the regular path
             if (!saveFilePath().empty()) {
                 reportPathChanged(saveFilePath());
@@ -1921,7 +1934,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // close stream; it is useless for further usage anyways because it is write-only
             outputStream.close();
         } else {
-            const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
+            const auto newSize = currentWriteOffset(outputStream);
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
                 // -> prevent deferring final write operations (to catch and handle possible errors here)
-- 
2.43.0


From 8c63d53cbe2c92872baf8a9ec282275c178d5712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 021/118] fix: handle failures to determine the current offset
 when writing files

Calling tellp() returns -1 without setting the error state if seeking is not
possible which led to garbled offsets without any error being reported.
---
 basicfileinfo.cpp              | 13 +++++++++++++
 basicfileinfo.h                |  1 +
 matroska/matroskacontainer.cpp | 16 ++++++++--------
 mediafileinfo.cpp              | 13 -------------
 mp4/mp4atom.cpp                |  4 ++--
 mp4/mp4container.cpp           |  8 ++++----
 mp4/mp4track.cpp               |  6 +++---
 ogg/oggcontainer.cpp           |  8 ++++----
 8 files changed, 35 insertions(+), 34 deletions(-)

diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index f9a4991..14eef4b 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -140,6 +140,19 @@ void BasicFileInfo::setPath(std::string &&path)
     }
 }
 
+/*!
+ * \brief Returns the current write offset of the specified \a stream.
+ * \throws Throws std::ios_base::failure when the offset cannot be determined (which is not done by tellp() itself).
+ */
+std::uint64_t BasicFileInfo::currentWriteOffset(std::ostream &stream)
+{
+    const auto offset = static_cast<std::streamoff>(stream.tellp());
+    if (offset < 0) {
+        throw std::ios_base::failure("Unable to determine the current offset.");
+    }
+    return static_cast<std::uint64_t>(offset);
+}
+
 /*!
  * \brief Returns the file name of the given file.
  *
diff --git a/basicfileinfo.h b/basicfileinfo.h
index 7fbb59c..0ace819 100644
--- a/basicfileinfo.h
+++ b/basicfileinfo.h
@@ -35,6 +35,7 @@ public:
     const std::string &path() const;
     void setPath(std::string_view path);
     void setPath(std::string &&path);
+    static std::uint64_t currentWriteOffset(std::ostream &stream);
     static std::string fileName(std::string_view path, bool cutExtension = false);
     std::string fileName(bool cutExtension = false) const;
     static std::string extension(std::string_view path);
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 05b0e9b..86bf1f4 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1607,7 +1607,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
                 sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
                 outputStream.write(buff, sizeLength);
-                segment.newDataOffset = offset = static_cast<std::uint64_t>(outputStream.tellp()); // store segment data offset here
+                segment.newDataOffset = offset = BasicFileInfo::currentWriteOffset(outputStream); // store segment data offset here
 
                 // write CRC-32 element ...
                 if (segment.hasCrc32) {
@@ -1615,7 +1615,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     *buff = static_cast<char>(EbmlIds::Crc32);
                     *(buff + 1) = static_cast<char>(0x84); // length denotation: 4 byte
                     // set the value after writing the element
-                    crc32Offsets.emplace_back(outputStream.tellp(), segment.totalDataSize);
+                    crc32Offsets.emplace_back(BasicFileInfo::currentWriteOffset(outputStream), segment.totalDataSize);
                     outputStream.write(buff, 6);
                 }
 
@@ -1721,13 +1721,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 if (rewriteRequired) {
                     // update status, check whether the operation has been aborted
                     progress.nextStepOrStop("Writing cluster ...",
-                        static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
+                        static_cast<std::uint8_t>((BasicFileInfo::currentWriteOffset(outputStream) - offset) * 100 / segment.totalDataSize));
                     // write "Cluster"-element
                     auto clusterSizesIterator = segment.clusterSizes.cbegin();
                     unsigned int index = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
-                        clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
+                        clusterSize = currentPosition + (BasicFileInfo::currentWriteOffset(outputStream) - offset);
                         // write header; checking whether clusterSizesIterator is valid shouldn't be necessary
                         outputWriter.writeUInt32BE(MatroskaIds::Cluster);
                         sizeLength = EbmlElement::makeSizeDenotation(*clusterSizesIterator, buff);
@@ -1749,13 +1749,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         progress.stopIfAborted();
                         if (index % 50 == 0) {
                             progress.updateStepPercentage(
-                                static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
+                                static_cast<std::uint8_t>((BasicFileInfo::currentWriteOffset(outputStream) - offset) * 100 / segment.totalDataSize));
                         }
                     }
                 } else {
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
-                        static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
+                        static_cast<std::uint8_t>((BasicFileInfo::currentWriteOffset(outputStream) - offset) * 100 / segment.totalDataSize));
                     for (; level1Element; level1Element = level1Element->nextSibling()) {
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
                             switch (level2Element->id()) {
@@ -1831,7 +1831,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         outputStream.flush();
         if (rewriteRequired) {
             // report new size
-            fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
+            fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(outputStream));
 
             // "save as path" is now the regular path
             if (!fileInfo().saveFilePath().empty()) {
@@ -1844,7 +1844,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
-            const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
+            const auto newSize = BasicFileInfo::currentWriteOffset(outputStream);
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 3e07cbc..52ed42d 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1653,19 +1653,6 @@ void MediaFileInfo::invalidated()
     clearParsingResults();
 }
 
-/*!
- * \brief Returns the current write offset of the specified \a stream.
- * \throws Throws std::ios_base::failure when the offset cannot be determined (which is not done by tellp() itself).
- */
-static std::uint64_t currentWriteOffset(std::ostream &stream)
-{
-    const auto offset = static_cast<std::streamoff>(stream.tellp());
-    if (offset < 0) {
-        throw std::ios_base::failure("Unable to determine the current offset.");
-    }
-    return static_cast<std::uint64_t>(offset);
-}
-
 /*!
  * \brief Internally used to save chanings of MP3/FLAC files and any other files which might have ID3 tags.
  */
diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..99df136 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -132,7 +132,7 @@ void Mp4Atom::internalParse(Diagnostics &diag)
  */
 void Mp4Atom::seekBackAndWriteAtomSize(std::ostream &stream, const std::ostream::pos_type &startOffset, Diagnostics &diag)
 {
-    ostream::pos_type currentOffset = stream.tellp();
+    const auto currentOffset = static_cast<ostream::pos_type>(static_cast<std::streamoff>(BasicFileInfo::currentWriteOffset(stream)));
     const auto atomSize(currentOffset - startOffset);
     if (atomSize > numeric_limits<std::uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Fatal, argsToString(atomSize, " exceeds maximum."), "write 32-bit atom size");
@@ -156,7 +156,7 @@ void Mp4Atom::seekBackAndWriteAtomSize(std::ostream &stream, const std::ostream:
  */
 void Mp4Atom::seekBackAndWriteAtomSize64(std::ostream &stream, const ostream::pos_type &startOffset)
 {
-    ostream::pos_type currentOffset = stream.tellp();
+    const auto currentOffset = static_cast<ostream::pos_type>(static_cast<std::streamoff>(BasicFileInfo::currentWriteOffset(stream)));
     stream.seekp(startOffset);
     BinaryWriter writer(&stream);
     writer.writeUInt32BE(1);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index d739f2f..72a2c75 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -733,7 +733,7 @@ calculatePadding:
                             } else {
                                 // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
                                 origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(outputStream.tellp());
+                                newMediaDataOffsets.push_back(static_cast<std::int64_t>(BasicFileInfo::currentWriteOffset(outputStream)));
                             }
                             [[fallthrough]];
                         default:
@@ -797,7 +797,7 @@ calculatePadding:
                                 if (chunkIndexWithinTrack < chunkOffsetTable.size() && chunkIndexWithinTrack < chunkSizesTable.size()) {
                                     // copy chunk, update entry in chunk offset table
                                     sourceStream.seekg(static_cast<streamoff>(chunkOffsetTable[chunkIndexWithinTrack]));
-                                    chunkOffsetTable[chunkIndexWithinTrack] = static_cast<std::uint64_t>(outputStream.tellp());
+                                    chunkOffsetTable[chunkIndexWithinTrack] = BasicFileInfo::currentWriteOffset(outputStream);
                                     copyHelper.copy(sourceStream, outputStream, chunkSizesTable[chunkIndexWithinTrack]);
 
                                     // update counter / status
@@ -843,7 +843,7 @@ calculatePadding:
         outputStream.flush();
         if (rewriteRequired) {
             // report new size
-            fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
+            fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(outputStream));
             // "save as path" is now the regular path
             if (!fileInfo().saveFilePath().empty()) {
                 fileInfo().reportPathChanged(fileInfo().saveFilePath());
@@ -854,7 +854,7 @@ calculatePadding:
             outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
-            const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
+            const auto newSize = BasicFileInfo::currentWriteOffset(outputStream);
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..96a9c7e 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1257,7 +1257,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
 void Mp4Track::makeTrack(Diagnostics &diag)
 {
     // write header
-    ostream::pos_type trakStartOffset = outputStream().tellp();
+    const auto trakStartOffset = static_cast<ostream::pos_type>(static_cast<std::streamoff>(BasicFileInfo::currentWriteOffset(outputStream())));
     m_writer.writeUInt32BE(0); // write size later
     m_writer.writeUInt32BE(Mp4AtomIds::Track);
 
@@ -1373,7 +1373,7 @@ void Mp4Track::makeTrackHeader(Diagnostics &diag)
  */
 void Mp4Track::makeMedia(Diagnostics &diag)
 {
-    ostream::pos_type mdiaStartOffset = outputStream().tellp();
+    const auto mdiaStartOffset = static_cast<ostream::pos_type>(static_cast<std::streamoff>(BasicFileInfo::currentWriteOffset(outputStream())));
     writer().writeUInt32BE(0); // write size later
     writer().writeUInt32BE(Mp4AtomIds::Media);
     // write mdhd atom
@@ -1473,7 +1473,7 @@ void Mp4Track::makeMedia(Diagnostics &diag)
  */
 void Mp4Track::makeMediaInfo(Diagnostics &diag)
 {
-    ostream::pos_type minfStartOffset = outputStream().tellp();
+    const auto minfStartOffset = static_cast<ostream::pos_type>(static_cast<std::streamoff>(BasicFileInfo::currentWriteOffset(outputStream())));
     writer().writeUInt32BE(0); // write size later
     writer().writeUInt32BE(Mp4AtomIds::MediaInformation);
     auto dinfAtomWritten = false;
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index bc62828..ac33378 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -518,7 +518,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             const auto pageSize = currentPage.totalSize();
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
             lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+            lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream());
             nextPageOffset = currentPage.startOffset() + pageSize;
 
             // check whether the Vorbis Comment is present in this Ogg page
@@ -590,7 +590,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     // write pages until all data in the buffer is written
                     while (newSegmentSizesIterator != newSegmentSizesEnd) {
                         // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
+                        updatedPageOffsets.push_back(BasicFileInfo::currentWriteOffset(stream()));
                         // copy page header from original file (except for the segment table)
                         backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                         copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
@@ -676,7 +676,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 if (pageSequenceNumber != m_iterator.currentPageIndex()) {
                     // just update page sequence number
                     backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
+                    updatedPageOffsets.push_back(BasicFileInfo::currentWriteOffset(stream())); // memorize offset to update checksum later
                     copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
                     stream().seekp(-9, ios_base::cur);
                     writer().writeUInt32LE(pageSequenceNumber);
@@ -695,7 +695,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         fileInfo().stream().flush();
 
         // report new size
-        fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
+        fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(stream()));
         progress.updateStepPercentage(100);
 
         // "save as path" is now the regular path
-- 
2.43.0


From 258d79223dbb9f9f22101c1f31165fcc26ffd310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 022/118] fix: avoid crash when FLAC picture block is not
 preceded by a Vorbis comment

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..3454866 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From fb1f49f2faab4e8796d2a380983120347f58c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 023/118] fix: avoid overwriting FLAC meta-data blocks when
 adjusting the last flag

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 3454866..6074e3e 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -222,7 +222,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(0, ios_base::end);
     }
 
     // write Vorbis comment
@@ -291,7 +291,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 2ef693c57da670f79d6cf8312d15a12fcc390e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 024/118] fix: handle covers which are too big for a FLAC
 picture block

---
 flac/flacstream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 6074e3e..0461e68 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -260,7 +260,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
@@ -268,7 +268,10 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
             FlacMetaDataBlockPicture pictureBlock(i->second.value());
             pictureBlock.setPictureType(i->second.typeInfo());
             header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            if (header.dataSize() > 0xFFFFFF) {
+                throw InvalidDataException();
+            }
+            header.setLast(std::next(i) == coverFields.second);
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
-- 
2.43.0


From 98f7b158feabf520613059c7f55ccb3e0eee4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 025/118] fix: write padding only once if a FLAC file has also
 an ID3v2 tag

---
 mediafileinfo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 52ed42d..b662f2d 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1846,11 +1846,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            if (padding && makers.empty() && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1862,7 +1862,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream << flacMetaData.rdbuf();
 
             // write padding
-            if (padding) {
+            if (padding && makers.empty()) {
                 flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
             }
         }
-- 
2.43.0


From 3939bea59f46b743c3bc78c2285dbb6698e2b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 026/118] fix: report write errors which occur when writing
 FLAC meta-data

---
 mediafileinfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b662f2d..7c24b7f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1859,7 +1859,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
 
             // write FLAC metadata
-            outputStream << flacMetaData.rdbuf();
+            // note: Not using "outputStream << flacMetaData.rdbuf()" as it would not report incomplete writes.
+            const auto flacMetaDataBuffer = flacMetaData.str();
+            outputStream.write(flacMetaDataBuffer.data(), static_cast<std::streamsize>(flacMetaDataBuffer.size()));
 
             // write padding
             if (padding && makers.empty()) {
-- 
2.43.0


From c5de696771c145a0c95625bd15b4b8295e6691c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 027/118] fix: report write errors which occur when writing
 converted MP4 tag values

---
 mp4/mp4tagfield.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..cd117dc 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -753,7 +753,9 @@ void Mp4TagFieldMaker::make(ostream &stream)
         m_writer.writeUInt16BE(data.languageIndicator);
         if (data.convertedData.tellp()) {
             // write converted data
-            stream << data.convertedData.rdbuf();
+            // note: Not using "stream << data.convertedData.rdbuf()" as it would not report incomplete writes.
+            const auto convertedData = data.convertedData.str();
+            stream.write(convertedData.data(), static_cast<std::streamsize>(convertedData.size()));
         } else {
             // no conversion was needed, write data directly from tag value
             stream.write(data.rawData.data(), static_cast<std::streamoff>(data.rawData.size()));
-- 
2.43.0


From 576871009cca406370b35a3aae08e2c19924c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:09 +0000
Subject: [PATCH 028/118] fix: avoid writing empty FLAC picture blocks for
 removed covers

---
 flac/flacstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0461e68..45e8e7a 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -261,6 +261,9 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
     for (auto i = coverFields.first; i != coverFields.second; ++i) {
+        if (i->second.value().isEmpty()) {
+            continue;
+        }
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
-- 
2.43.0


From 9377128ace3d0a931cc694f0248dcf8a6fee826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 029/118] fix: handle failures to determine the current offset
 when reading files

---
 abstractattachment.cpp  |  6 +++---
 basicfileinfo.cpp       | 15 ++++++++++++++-
 basicfileinfo.h         |  1 +
 flac/flacstream.cpp     |  6 +++---
 id3/id3v2tag.cpp        |  4 ++--
 ivf/ivfframe.cpp        |  3 ++-
 mp4/mp4track.cpp        |  6 +++---
 wav/waveaudiostream.cpp |  3 ++-
 8 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/abstractattachment.cpp b/abstractattachment.cpp
index 9d586dd..ad6c9ff 100644
--- a/abstractattachment.cpp
+++ b/abstractattachment.cpp
@@ -49,11 +49,11 @@ StreamDataBlock::StreamDataBlock(const std::function<std::istream &()> &stream,
     : m_stream(stream)
 {
     auto &s = stream();
-    auto currentPos = s.tellg();
+    const auto currentPos = static_cast<std::streamoff>(BasicFileInfo::currentReadOffset(s));
     s.seekg(static_cast<std::istream::off_type>(startOffset), startDir);
-    m_startOffset = static_cast<std::uint64_t>(s.tellg());
+    m_startOffset = BasicFileInfo::currentReadOffset(s);
     s.seekg(static_cast<std::istream::off_type>(endOffset), endDir);
-    m_endOffset = static_cast<std::uint64_t>(s.tellg());
+    m_endOffset = BasicFileInfo::currentReadOffset(s);
     s.seekg(currentPos);
     if (m_endOffset < m_startOffset) {
         throw std::ios_base::failure("End offset is less than start offset.");
diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index 14eef4b..f70620f 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -87,7 +87,7 @@ void BasicFileInfo::reopen(bool readOnly)
     m_file.open(
         pathForOpen(path()).data(), (m_readOnly = readOnly) ? ios_base::in | ios_base::binary : ios_base::in | ios_base::out | ios_base::binary);
     m_file.seekg(0, ios_base::end);
-    m_size = static_cast<std::uint64_t>(m_file.tellg());
+    m_size = currentReadOffset(m_file);
     m_file.seekg(0, ios_base::beg);
 }
 
@@ -140,6 +140,19 @@ void BasicFileInfo::setPath(std::string &&path)
     }
 }
 
+/*!
+ * \brief Returns the current read offset of the specified \a stream.
+ * \throws Throws std::ios_base::failure when the offset cannot be determined (which is not done by tellg() itself).
+ */
+std::uint64_t BasicFileInfo::currentReadOffset(std::istream &stream)
+{
+    const auto offset = static_cast<std::streamoff>(stream.tellg());
+    if (offset < 0) {
+        throw std::ios_base::failure("Unable to determine the current offset.");
+    }
+    return static_cast<std::uint64_t>(offset);
+}
+
 /*!
  * \brief Returns the current write offset of the specified \a stream.
  * \throws Throws std::ios_base::failure when the offset cannot be determined (which is not done by tellp() itself).
diff --git a/basicfileinfo.h b/basicfileinfo.h
index 0ace819..3b9ac2e 100644
--- a/basicfileinfo.h
+++ b/basicfileinfo.h
@@ -35,6 +35,7 @@ public:
     const std::string &path() const;
     void setPath(std::string_view path);
     void setPath(std::string &&path);
+    static std::uint64_t currentReadOffset(std::istream &stream);
     static std::uint64_t currentWriteOffset(std::ostream &stream);
     static std::string fileName(std::string_view path, bool cutExtension = false);
     std::string fileName(bool cutExtension = false) const;
diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 45e8e7a..5a591d4 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -90,7 +90,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         header.parseHeader(std::string_view(buffer, 4));
 
         // remember start offset
-        const auto startOffset = m_istream->tellg();
+        const auto startOffset = static_cast<std::streamoff>(BasicFileInfo::currentReadOffset(*m_istream));
 
         // parse relevant meta data
         switch (static_cast<FlacMetaDataBlockType>(header.type())) {
@@ -160,12 +160,12 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         }
 
         // seek to next block
-        m_istream->seekg(startOffset + static_cast<decltype(startOffset)>(header.dataSize()));
+        m_istream->seekg(startOffset + static_cast<std::streamoff>(header.dataSize()));
 
         // TODO: check first FLAC frame
     }
 
-    m_streamOffset = static_cast<std::uint32_t>(m_istream->tellg());
+    m_streamOffset = static_cast<std::uint32_t>(BasicFileInfo::currentReadOffset(*m_istream));
 }
 
 /*!
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index b5d3132..757ea77 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -552,7 +552,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     // prepare parsing
     static const string context("parsing ID3v2 tag");
     BinaryReader reader(&stream);
-    const auto startOffset = static_cast<std::uint64_t>(stream.tellg());
+    const auto startOffset = BasicFileInfo::currentReadOffset(stream);
 
     // check whether the header is truncated
     if (maximalSize && maximalSize < 10) {
@@ -609,7 +609,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     }
 
     // read frames
-    auto pos = static_cast<std::uint64_t>(stream.tellg());
+    auto pos = BasicFileInfo::currentReadOffset(stream);
     while (bytesRemaining) {
         // seek to next frame
         stream.seekg(static_cast<streamoff>(pos));
diff --git a/ivf/ivfframe.cpp b/ivf/ivfframe.cpp
index cce1104..2bd5d52 100644
--- a/ivf/ivfframe.cpp
+++ b/ivf/ivfframe.cpp
@@ -1,5 +1,6 @@
 #include "./ivfframe.h"
 
+#include "../basicfileinfo.h"
 #include "../exceptions.h"
 
 #include <c++utilities/io/binaryreader.h>
@@ -21,7 +22,7 @@ namespace TagParser {
 void IvfFrame::parseHeader(CppUtilities::BinaryReader &reader, Diagnostics &diag)
 {
     CPP_UTILITIES_UNUSED(diag)
-    startOffset = static_cast<std::uint64_t>(reader.stream()->tellg());
+    startOffset = BasicFileInfo::currentReadOffset(*reader.stream());
     size = reader.readUInt32BE();
     timestamp = reader.readUInt64BE();
 }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 96a9c7e..f7bcd75 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -624,7 +624,7 @@ std::unique_ptr<Mpeg4ElementaryStreamInfo> Mp4Track::parseMpeg4ElementaryStreamI
             diag.emplace_back(DiagLevel::Warning, "Unknown version/flags.", context);
         }
         // read extended descriptor
-        Mpeg4Descriptor esDesc(esDescAtom->container(), static_cast<std::uint64_t>(reader.stream()->tellg()), esDescAtom->dataSize() - 4);
+        Mpeg4Descriptor esDesc(esDescAtom->container(), BasicFileInfo::currentReadOffset(*reader.stream()), esDescAtom->dataSize() - 4);
         try {
             esDesc.parse(diag);
             // check ID
@@ -647,7 +647,7 @@ std::unique_ptr<Mpeg4ElementaryStreamInfo> Mp4Track::parseMpeg4ElementaryStreamI
                 esInfo->ocrId = reader.readUInt16BE();
             }
             for (Mpeg4Descriptor *esDescChild
-                = esDesc.denoteFirstChild(static_cast<std::uint32_t>(static_cast<std::uint64_t>(reader.stream()->tellg()) - esDesc.startOffset()));
+                = esDesc.denoteFirstChild(static_cast<std::uint32_t>(BasicFileInfo::currentReadOffset(*reader.stream()) - esDesc.startOffset()));
                 esDescChild; esDescChild = esDescChild->nextSibling()) {
                 esDescChild->parse(diag);
                 switch (esDescChild->id()) {
@@ -959,7 +959,7 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     m_ostream->seekp(static_cast<streamoff>(startPos));
     vector<std::int64_t>::size_type i;
     vector<std::int64_t>::size_type size;
-    auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
+    auto currentPos = BasicFileInfo::currentReadOffset(*m_istream);
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..e758cd1 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -2,6 +2,7 @@
 
 #include "../mpegaudio/mpegaudioframestream.h"
 
+#include "../basicfileinfo.h"
 #include "../exceptions.h"
 #include "../mediaformat.h"
 
@@ -170,7 +171,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
             restHeaderLen -= bytesRead;
         } break;
         case 0x64617461u: // data segment
-            m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
+            m_dataOffset = BasicFileInfo::currentReadOffset(*m_istream);
             m_size = restHeaderLen;
             m_sampleCount = m_size / m_chunkSize;
             m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
-- 
2.43.0


From e6724dd582189d6ec1f8bd983e8917d7ae7ee0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 030/118] fix: avoid truncating the size of ADTS frames

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From a645cb3e3a788aa6c563f0a9348cd92f5943dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 031/118] fix: reset position within segment when moving
 OggIterator

A stale position led to reading Vorbis comments from a wrong offset.
---
 ogg/oggiterator.cpp | 6 ++++--
 ogg/oggiterator.h   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..dcfc003 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
@@ -101,6 +101,7 @@ void OggIterator::previousPage()
         const OggPage &page = m_pages[--m_page];
         if (matchesFilter(page)) {
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
@@ -114,7 +115,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 55bf75fb5be58ac854cf14a444007835398e09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 032/118] fix: only treat continuation of the comment packet as
 part of it

The page holding the end of the comment packet might be the one where the
beginning of the next packet is. This packet must not be considered as
padding of the comment (it was lost when applying changes).
---
 vorbis/vorbiscomment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..e774c34 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -306,11 +306,14 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
+            // take continuation of the packet on further pages into account
+            while (stream.currentPage().isLastSegmentUnconcluded()
+                && stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size()) {
                 stream.nextSegment();
-                if (stream) {
-                    bytesRemaining += stream.remainingBytesInCurrentSegment();
+                if (!stream) {
+                    break;
                 }
+                bytesRemaining += stream.remainingBytesInCurrentSegment();
             }
         }
         if (bytesRemaining) {
-- 
2.43.0


From 2a52bd7553c3fc9d03fade8a0b183a7ed1ab4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 033/118] fix: write all covers of a Vorbis comment, not just
 the first one

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index e774c34..8f23bc2 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -418,7 +418,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
             fieldsWritten += makeField(i.second, writer, flags, diag);
         }
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
+    for (auto [cover, coverEnd] = fields().equal_range(coverId); cover != coverEnd; ++cover) {
         fieldsWritten += makeField(cover->second, writer, flags, diag);
     }
     // write field count
-- 
2.43.0


From 87d70ccf3bdedf99f12273b4a5635857bf5d0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 034/118] fix: don't append padding to metadata blocks of FLAC
 streams in Ogg files

---
 ogg/oggcontainer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ac33378..ae7add0 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -416,7 +416,10 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     }
     default:;
     }
-    MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    // write padding (not possible within FLAC streams because a packet must only contain the metadata block)
+    if (params->streamFormat != GeneralMediaFormat::Flac) {
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    }
 
     newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
 }
-- 
2.43.0


From bc538ec816e6ec8f05bc4b714494276bcfa08a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 035/118] fix: rewrite Ogg pages holding Vorbis comments
 correctly

* Consider pages of multiple interleaved streams: Pages of other streams
  between the pages of a comment were treated as pages of the comment and
  only changes to the comment of the first stream were written.
* Don't conclude the last packet of a page if it is continued on the next
  page.
* Set "continued packet"-flag and absolute granule position according to the
  packets which are actually continued/finished on the page.
* Set "last page of logical bitstream"-flag only on the last page written.
* Preserve packets without data.
* Update sequence number of a page if it differs from the one of the page.
---
 ogg/oggcontainer.cpp | 156 ++++++++++++++++++-------------------------
 1 file changed, 66 insertions(+), 90 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ae7add0..c6551c7 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -464,17 +464,6 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
-        }
-
         // define misc variables
         const OggPage *lastPage = nullptr;
         static constexpr auto oggPageHeaderSize = 27u;
@@ -521,12 +510,21 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             const auto pageSize = currentPage.totalSize();
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
             lastPage = &currentPage;
-            lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream());
             nextPageOffset = currentPage.startOffset() + pageSize;
 
-            // check whether the Vorbis Comment is present in this Ogg page
-            if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
-                && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
+            // check whether the Vorbis Comment of the stream is present in this Ogg page
+            // note: The pages of different streams might be interleaved.
+            OggVorbisComment *currentComment = nullptr;
+            OggParameter *currentParams = nullptr;
+            for (const auto &tag : m_tags) {
+                auto &params = tag->oggParams();
+                if (m_iterator.currentPageIndex() >= params.firstPageIndex && m_iterator.currentPageIndex() <= params.lastPageIndex
+                    && m_iterator.pages()[params.firstPageIndex].streamSerialNumber() == currentPage.streamSerialNumber()) {
+                    currentParams = &(currentComment = tag.get())->oggParams();
+                    break;
+                }
+            }
+            if (currentComment && !currentPage.segmentSizes().empty()) {
                 // page needs to be rewritten (not just copied)
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
@@ -534,51 +532,29 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newSegmentSizes.reserve(currentPage.segmentSizes().size());
                 auto segmentOffset = m_iterator.currentSegmentOffset();
                 auto segmentIndex = std::vector<std::uint32_t>::size_type();
+                auto startsWithContinuedPacket = false, endsWithUnconcludedPacket = false;
                 for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
-                    }
                     // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
+                    if ((m_iterator.currentPageIndex() > currentParams->firstPageIndex || segmentIndex >= currentParams->firstSegmentIndex)
+                        && (m_iterator.currentPageIndex() < currentParams->lastPageIndex || segmentIndex <= currentParams->lastSegmentIndex)) {
                         // prevent making the comment twice if it spreads over multiple pages/segments
                         if (!currentParams->removed
                             && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
+                                && segmentIndex == currentParams->firstSegmentIndex))) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                         }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
                     } else {
                         // copy other segments unchanged
                         backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
                         copyHelper.copy(backupStream, buffer, segmentSize);
                         newSegmentSizes.push_back(segmentSize);
+                        startsWithContinuedPacket = startsWithContinuedPacket || (!segmentIndex && currentPage.isContinued());
+                        endsWithUnconcludedPacket = currentPage.isLastSegmentUnconcluded() && segmentIndex + 1 == currentPage.segmentSizes().size();
 
                         // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
-                            if (!currentParams->removed) {
-                                makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                            }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
+                        if (!segmentIndex && currentParams->firstSegmentIndex == numeric_limits<size_t>::max() && !currentParams->removed) {
+                            makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
+                            endsWithUnconcludedPacket = false;
                         }
                     }
                     segmentOffset += segmentSize;
@@ -586,28 +562,28 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 }
 
                 // write buffered data to actual stream
+                auto insertingAdditionalPage = false;
                 if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
                     newSegmentSizesIterator != newSegmentSizesEnd) {
                     auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
+                    auto continuePreviousSegment = startsWithContinuedPacket;
                     // write pages until all data in the buffer is written
                     while (newSegmentSizesIterator != newSegmentSizesEnd) {
                         // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(BasicFileInfo::currentWriteOffset(stream()));
+                        updatedPageOffsets.push_back(lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream()));
                         // copy page header from original file (except for the segment table)
                         backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                         copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
                         // use flags of original page as base and adjust "continued packet"-flag as needed
-                        auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
-                        continuePreviousSegment = true;
+                        // note: The "last page of logical bitstream"-flag is restored later.
+                        auto flags = (currentPage.headerTypeFlag() & 0xFA) | (continuePreviousSegment ? 0x01 : 0x00);
                         // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
-                        // override flags copied from original file
-                        stream().seekp(-22, ios_base::cur);
-                        stream().put(static_cast<char>(flags));
-                        // update absolute granule position later (8 byte) and keep stream serial number (4 byte)
-                        stream().seekp(12, ios_base::cur);
+                        if (insertingAdditionalPage) {
+                            flags &= 0xFD;
+                        }
+                        insertingAdditionalPage = true;
+                        // update flags and absolute granule position later (1 + 8 byte) and keep stream serial number (4 byte)
+                        stream().seekp(-9, ios_base::cur);
                         // adjust page sequence number
                         writer().writeUInt32LE(pageSequenceNumber);
                         // skip checksum (4 bytes) and number of page segments (1 byte); those are update later
@@ -616,52 +592,51 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         // the max number of segment sizes (255) is not exceeded
                         auto segmentSizesWritten = std::int16_t(); // in the current page header only
                         auto currentSize = std::uint32_t();
-                        while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                            while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
-                                stream().put(static_cast<char>(0xFF));
-                                currentSize += 0xFF;
-                                bytesLeft -= 0xFF;
-                                ++segmentSizesWritten;
+                        auto packetFinished = false;
+                        while (newSegmentSizesIterator != newSegmentSizesEnd && segmentSizesWritten < 0xFF) {
+                            const auto lacingValue = std::min<std::uint32_t>(bytesLeft, 0xFF);
+                            stream().put(static_cast<char>(lacingValue));
+                            currentSize += lacingValue;
+                            bytesLeft -= lacingValue;
+                            ++segmentSizesWritten;
+                            if (lacingValue < 0xFF) {
+                                packetFinished = true;
+                            } else if (bytesLeft || !endsWithUnconcludedPacket || newSegmentSizesIterator + 1 != newSegmentSizesEnd) {
+                                continuePreviousSegment = true;
+                                continue;
                             }
-                            if ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                                // bytes left is here <= 0xFF
-                                stream().put(static_cast<char>(bytesLeft));
-                                currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
-                                bytesLeft = 0;
-                                ++segmentSizesWritten;
-                            }
-                            if (!bytesLeft && !needsZeroLacingValue) {
-                                // sizes for the segment have been written
-                                // -> continue with next segment
-                                if (++newSegmentSizesIterator != newSegmentSizesEnd) {
-                                    bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
-                                }
+                            // sizes for the segment have been written
+                            // -> continue with next segment
+                            continuePreviousSegment = false;
+                            if (++newSegmentSizesIterator != newSegmentSizesEnd) {
+                                bytesLeft = *newSegmentSizesIterator;
                             }
                         }
 
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
+                        // restore "last page of logical bitstream"-flag if this is the last page
+                        const auto isLastPage = newSegmentSizesIterator == newSegmentSizesEnd;
+                        if (isLastPage) {
+                            flags |= currentPage.headerTypeFlag() & 0x04;
                         }
+                        stream().seekp(-22 - segmentSizesWritten, ios_base::cur);
+                        stream().put(static_cast<char>(flags));
 
                         // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
+                        if (!packetFinished) {
+                            // set absolute granule position to special value "-1" as no packet finishes on this page
                             writer().writeInt64LE(-1);
-                            stream().seekp(12, ios_base::cur);
+                        } else if (!isLastPage) {
+                            // set absolute granule position to zero as only header packets finish on this page
+                            writer().writeInt64LE(0);
                         } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
                             // ensure the written absolute granule position matches the one from the last page of the existing file
                             backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
                             copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
                         } else {
                             // leave the absolute granule position unchanged
-                            stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
+                            stream().seekp(8, ios_base::cur);
                         }
+                        stream().seekp(12, ios_base::cur);
 
                         // page is full or all segment data has been covered
                         // -> write segment table size (segmentSizesWritten) and segment data
@@ -676,10 +651,11 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 }
 
             } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
+                lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream());
+                if (pageSequenceNumber != currentPage.sequenceNumber()) {
                     // just update page sequence number
                     backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(BasicFileInfo::currentWriteOffset(stream())); // memorize offset to update checksum later
+                    updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
                     copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
                     stream().seekp(-9, ios_base::cur);
                     writer().writeUInt32LE(pageSequenceNumber);
-- 
2.43.0


From dfa9b514ccd97befdcb3edf332df33ba7d915001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:00 +0000
Subject: [PATCH 036/118] fix: preserve empty Vorbis comment in FLAC streams
 when removing the tag

The comment is mandatory within FLAC streams in Ogg files. The resulting file
could not be parsed anymore.
---
 ogg/oggcontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index c6551c7..c9da655 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -538,7 +538,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     if ((m_iterator.currentPageIndex() > currentParams->firstPageIndex || segmentIndex >= currentParams->firstSegmentIndex)
                         && (m_iterator.currentPageIndex() < currentParams->lastPageIndex || segmentIndex <= currentParams->lastSegmentIndex)) {
                         // prevent making the comment twice if it spreads over multiple pages/segments
-                        if (!currentParams->removed
+                        // note: The comment is mandatory within FLAC streams so an empty comment is written if it has been removed.
+                        if ((!currentParams->removed || currentParams->streamFormat == GeneralMediaFormat::Flac)
                             && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
                                 && segmentIndex == currentParams->firstSegmentIndex))) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-- 
2.43.0


From d7eee927777ec2828fcfdb8dabc89e68e331d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:51 +0000
Subject: [PATCH 037/118] fix: preserve Ogg pages without segments

Applying changes to a file containing such a page (e.g. to denote the end of
a stream) ended up in an endless loop or the page was lost.
---
 ogg/oggcontainer.cpp | 57 ++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index c9da655..5adc2f0 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -473,6 +473,37 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         auto nextPageOffset = std::uint64_t();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
 
+        // define function to copy a page, possibly only updating its sequence number
+        const auto copyPage = [&](const OggPage &page) {
+            auto &pageSequenceNumber = pageSequenceNumberBySerialNo[page.streamSerialNumber()];
+            lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream());
+            backupStream.seekg(static_cast<streamoff>(page.startOffset()));
+            if (pageSequenceNumber != page.sequenceNumber()) {
+                updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
+                copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
+                stream().seekp(-9, ios_base::cur);
+                writer().writeUInt32LE(pageSequenceNumber);
+                stream().seekp(5, ios_base::cur);
+                copyHelper.copy(backupStream, stream(), page.totalSize() - oggPageHeaderSize);
+            } else {
+                copyHelper.copy(backupStream, stream(), page.totalSize());
+            }
+            ++pageSequenceNumber;
+        };
+
+        // define function to copy pages without segments (which are skipped by the iterator) up to the specified index
+        auto nextPageIndex = std::size_t();
+        const auto copyEmptyPages = [&](std::size_t endIndex) {
+            for (; nextPageIndex < endIndex && nextPageIndex < m_iterator.pages().size(); ++nextPageIndex) {
+                const auto &page = m_iterator.pages()[nextPageIndex];
+                if (!page.segmentSizes().empty() || page.startOffset() != nextPageOffset) {
+                    break;
+                }
+                copyPage(page);
+                nextPageOffset += page.totalSize();
+            }
+        };
+
         // iterate through all pages of the original file
         auto updateTick = 0u;
         for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
@@ -482,6 +513,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 progress.stopIfAborted();
             }
 
+            // preserve pages without segments
+            copyEmptyPages(m_iterator.currentPageIndex());
+
             // check for gaps
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
@@ -508,9 +542,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 }
             }
             const auto pageSize = currentPage.totalSize();
-            auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
             lastPage = &currentPage;
             nextPageOffset = currentPage.startOffset() + pageSize;
+            nextPageIndex = m_iterator.currentPageIndex() + 1;
 
             // check whether the Vorbis Comment of the stream is present in this Ogg page
             // note: The pages of different streams might be interleaved.
@@ -524,7 +558,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     break;
                 }
             }
-            if (currentComment && !currentPage.segmentSizes().empty()) {
+            if (currentComment) {
+                auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
                 // page needs to be rewritten (not just copied)
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
@@ -652,24 +687,10 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 }
 
             } else {
-                lastPageNewOffset = BasicFileInfo::currentWriteOffset(stream());
-                if (pageSequenceNumber != currentPage.sequenceNumber()) {
-                    // just update page sequence number
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
-                    copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                    stream().seekp(-9, ios_base::cur);
-                    writer().writeUInt32LE(pageSequenceNumber);
-                    stream().seekp(5, ios_base::cur);
-                    copyHelper.copy(backupStream, stream(), pageSize - oggPageHeaderSize);
-                } else {
-                    // copy page unchanged
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    copyHelper.copy(backupStream, stream(), pageSize);
-                }
-                ++pageSequenceNumber;
+                copyPage(currentPage);
             }
         }
+        copyEmptyPages(m_iterator.pages().size());
 
         // prevent deferring write operations (to catch and handle possible errors here)
         fileInfo().stream().flush();
-- 
2.43.0


From bcc50ad8f5dd577230c3e23a840445067bde5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 038/118] fix: handle failing allocations when buffering Ogg
 pages

The file was silently corrupted or written endlessly because errors of the
buffer were ignored.
---
 ogg/oggcontainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 5adc2f0..cee69c6 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -563,6 +563,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 // page needs to be rewritten (not just copied)
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
+                buffer.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                 auto newSegmentSizes = std::vector<std::uint32_t>();
                 newSegmentSizes.reserve(currentPage.segmentSizes().size());
                 auto segmentOffset = m_iterator.currentSegmentOffset();
-- 
2.43.0


From 36ba3c869279dbd10d497c45f5fccf4a4fa7f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 039/118] fix: only report new path/size of Ogg file when
 applying changes succeeded

Otherwise the object refers to an incomplete file when an error occurs in the
last step.
---
 ogg/oggcontainer.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index cee69c6..ba1fe04 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -696,21 +696,16 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         // prevent deferring write operations (to catch and handle possible errors here)
         fileInfo().stream().flush();
 
-        // report new size
-        fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(stream()));
+        // determine new size
+        const auto newSize = BasicFileInfo::currentWriteOffset(stream());
         progress.updateStepPercentage(100);
 
-        // "save as path" is now the regular path
-        if (!fileInfo().saveFilePath().empty()) {
-            fileInfo().reportPathChanged(fileInfo().saveFilePath());
-            fileInfo().setSaveFilePath(string());
-        }
-
         // close backups stream; reopen new file as readable stream
         auto &stream = fileInfo().stream();
         backupStream.close();
         fileInfo().close();
-        stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
+        stream.open(BasicFileInfo::pathForOpen(fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath()).data(),
+            ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
         if (lastPage && lastPageNewOffset) {
@@ -728,7 +723,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         updateTick = 0u;
         for (auto offset : updatedPageOffsets) {
             if (updateTick++ % 10) {
-                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / fileInfo().size()));
+                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / newSize));
                 progress.stopIfAborted();
             }
             OggPage::updateChecksum(stream, offset);
@@ -738,6 +733,13 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.flush();
         progress.updateStepPercentage(100);
 
+        // report new size; "save as path" is now the regular path
+        fileInfo().reportSizeChanged(newSize);
+        if (!fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // clear iterator
         m_iterator.clear(stream, startOffset(), fileInfo().size());
 
-- 
2.43.0


From 6ca8602981d999a95f51167ed661f7235cc997f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 040/118] fix: consider all media data atoms when updating
 offsets in MP4 files

The displacement of the first "mdat"-atom was used for all chunks even if
other "mdat"-atoms are moved differently. Base data offsets referring to a
"moof"-atom were not updated at all.
---
 mp4/mp4container.cpp | 9 ++++-----
 mp4/mp4track.cpp     | 5 ++---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 72a2c75..9dbaa6a 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -730,13 +730,12 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
-                                // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
-                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(static_cast<std::int64_t>(BasicFileInfo::currentWriteOffset(outputStream)));
                             }
                             [[fallthrough]];
                         default:
+                            // store offsets of media data (and e.g. movie fragments base offsets might refer to) to be able to update offsets
+                            origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
+                            newMediaDataOffsets.push_back(static_cast<std::int64_t>(BasicFileInfo::currentWriteOffset(outputStream)));
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
@@ -976,7 +975,7 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
                         std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
+                        for (auto iOld = oldMdatOffsets.crbegin(), iNew = newMdatOffsets.crbegin(), end = oldMdatOffsets.crend(); iOld != end;
                             ++iOld, ++iNew) {
                             if (off < static_cast<std::uint64_t>(*iOld)) {
                                 continue;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index f7bcd75..2b3a0d4 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -958,14 +958,13 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
     vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = BasicFileInfo::currentReadOffset(*m_istream);
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
             off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
+            for (i = oldMdatOffsets.size(); i-- > 0;) {
                 if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
                     off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
                     break;
@@ -981,7 +980,7 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
             off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
+            for (i = oldMdatOffsets.size(); i-- > 0;) {
                 if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
                     off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
                     break;
-- 
2.43.0


From 7617139d1eca65064ab73c69d1fa956fef8bec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 041/118] fix: skip the whole atom when voiding it in MP4 files

Media data was overwritten if an atom has been voided when updating the file
without rewriting it.
---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 9dbaa6a..7ec43e6 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -824,6 +824,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()) - 8, ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From 642129306e06103921c30a99874bdd4cb851196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 042/118] fix: write index of pre-defined genre one-based in
 MP4 tags

---
 mp4/mp4tagfield.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index cd117dc..f5709b9 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -572,6 +572,9 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
             }
         }
         break;
+    case Mp4TagAtomIds::PreDefinedGenre: // genre index stored in the file is one-based (see assignSpecialInteger())
+        writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
+        return true;
     case Mp4TagAtomIds::Rating:
         if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagContentRatingId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
@@ -681,7 +684,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                     break;
                 }
                 case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
+                    // note: The genre index stored in the file is one-based (see parsing code).
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
                     break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
-- 
2.43.0


From aebbd748f97a4fe3887b19ae74ba20e8c87e53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 043/118] fix: use raw data type which corresponds to the value
 when making MP4 tag fields

---
 mp4/mp4tagfield.cpp | 34 +++++++++++++++++++++++++++-------
 mp4/mp4tagfield.h   |  5 +++--
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index f5709b9..0a9e1a7 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -144,7 +144,10 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(*rawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
                     if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
@@ -160,13 +163,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -469,6 +472,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
             return RawDataType::Png;
         } else if (mimeType == "image/bmp") {
             return RawDataType::Bmp;
+        } else if (mimeType == "image/gif") {
+            return RawDataType::Gif;
         }
     } break;
     case Extended:
@@ -549,9 +554,11 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    m_totalSize += prepareDataAtom(field.value(), field.isTypeInfoAssigned() ? std::make_optional(field.typeInfo()) : std::nullopt,
+        field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        m_totalSize += prepareDataAtom(additionalData.value, additionalData.rawDataType, additionalData.countryIndicator,
+            additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -589,11 +596,19 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
 }
 /// \endcond
 
+/// \cond
+static bool isWellKnownPictureType(std::string_view mimeType)
+{
+    return mimeType == "image/jpg" || mimeType == "image/jpeg" || mimeType == "image/png" || mimeType == "image/bmp" || mimeType == "image/gif";
+}
+/// \endcond
+
 /*!
  * \brief Prepares making a data atom for the specified \a value.
  */
 std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+    const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator, std::uint16_t languageIndicator,
+    const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -606,7 +621,11 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        // note: The format of a picture is always determined via its MIME type (if known) as the picture might have been replaced with
+        //       a picture of a different format since the raw data type has been assigned.
+        data.rawType = rawDataType.has_value() && (m_field.id() != Mp4TagAtomIds::Cover || !isWellKnownPictureType(value.mimeType()))
+            ? rawDataType.value()
+            : m_field.appropriateRawDataTypeForValue(value);
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
@@ -662,6 +681,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 break;
             }
             case RawDataType::Bmp:
+            case RawDataType::Gif:
             case RawDataType::Jpeg:
             case RawDataType::Png:
                 break; // leave converted data empty to write original data later
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..65172e1 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -7,6 +7,7 @@
 #include <c++utilities/io/binarywriter.h>
 
 #include <cstdint>
+#include <optional>
 #include <sstream>
 #include <vector>
 
@@ -84,8 +85,8 @@ private:
     /// \endcond
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
-    std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+    std::uint64_t prepareDataAtom(const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator,
+        std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
-- 
2.43.0


From 14bcb8f1f97c4d0ecca58d36e8ab81cff707ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 044/118] fix: write UTF-16 text as big-endian in MP4 tags

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 0a9e1a7..7ef2f4a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -650,8 +650,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
-- 
2.43.0


From b9acd7fcea6b8815421e40d61f5d073dfefb9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 045/118] fix: preserve big unsigned integers when parsing MP4
 tag fields

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 7ef2f4a..b8b7ec2 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -221,8 +221,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     } else if (dataAtom->dataSize() == (8 + 1)) {
                         number = reader.readByte();
                     }
-                    if (number <= static_cast<std::uint64_t>(std::numeric_limits<int>::max())
-                        && !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                    if (number > static_cast<std::uint64_t>(std::numeric_limits<int>::max())
+                        || !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
                         val->assignUnsignedInteger(number);
                     }
                     break;
-- 
2.43.0


From dd473b4a556e4b1bd14d9ad1f23ffc7f09551517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 046/118] fix: only alter the relevant extended fields when
 setting multiple values of an MP4 tag

---
 mp4/mp4tag.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..744249f 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -313,10 +313,13 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto valuesIterator = values.cbegin();
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
+        const auto isRelevant = [&extendedId](const FieldType &extendedField) {
+            return extendedId.matches(extendedField) && (!extendedId.updateOnly || !extendedField.value().isEmpty());
+        };
         for (; valuesIterator != values.cend() && range.first != range.second;) {
             if (!valuesIterator->isEmpty()) {
                 auto &extendedField = range.first->second;
-                if (extendedId.matches(extendedField) && (!extendedId.updateOnly || !extendedField.value().isEmpty())) {
+                if (isRelevant(extendedField)) {
                     extendedField.clearValue();
                     extendedField.setValue(*valuesIterator);
                     // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
@@ -330,13 +333,18 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
             }
         }
         for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
+            if (!valuesIterator->isEmpty() && !extendedId.updateOnly) {
                 fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                     std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
             }
         }
         for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+            if (isRelevant(range.first->second)) {
+                range.first->second.clearValue();
+            }
+        }
+        if (!fieldId(field)) {
+            return true; // field is only stored via extended field
         }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
-- 
2.43.0


From b88ce06ef374bfeb6cfa7b92cbfad975ec4b212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 047/118] fix: preserve 24-bit and 64-bit integers in MP4 tags

---
 mp4/mp4tagfield.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index b8b7ec2..accf3fe 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -192,11 +192,28 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 }
                 case RawDataType::BeSignedInt: {
                     auto number = int();
-                    if (dataAtom->dataSize() > (8 + 4)) {
+                    if (dataAtom->dataSize() == (8 + 8)) {
+                        const auto bigNumber = reader.readInt64BE();
+                        if (bigNumber < std::numeric_limits<int>::min() || bigNumber > std::numeric_limits<int>::max()) {
+                            // preserve raw data if the number doesn't fit into the integer type used by TagValue
+                            auto data = make_unique<char[]>(8);
+                            BE::getBytes(bigNumber, data.get());
+                            val->assignData(std::move(data), 8, TagDataType::Undefined);
+                            break;
+                        }
+                        number = static_cast<int>(bigNumber);
+                    } else if (dataAtom->dataSize() > (8 + 4)) {
                         diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. Trying to read data anyway.", context);
                     }
-                    if (dataAtom->dataSize() >= (8 + 4)) {
+                    if (dataAtom->dataSize() == (8 + 8)) {
+                        // already read before
+                    } else if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = static_cast<int>(reader.readUInt24BE());
+                        if (number & 0x800000) {
+                            number -= 0x1000000;
+                        }
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
@@ -216,6 +233,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                         number = reader.readUInt64BE();
                     } else if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readUInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readUInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readUInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
@@ -655,6 +674,9 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             case RawDataType::BeSignedInt: {
+                if (value.type() == TagDataType::Undefined) {
+                    break; // leave converted data empty to write original data later
+                }
                 if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                     break;
                 }
-- 
2.43.0


From 1dc08ef27487e32c9f444e0ab132fd0722c5e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 048/118] fix: update offsets of movie fragments in tfra atoms
 of MP4 files

---
 mp4/mp4atom.cpp      |  1 +
 mp4/mp4container.cpp | 53 ++++++++++++++++++++++++++++++++++++++++++++
 mp4/mp4container.h   |  2 ++
 mp4/mp4ids.h         |  1 +
 4 files changed, 57 insertions(+)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 99df136..6740bf4 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -204,6 +204,7 @@ bool Mp4Atom::isParent() const
     case Meta:
     case ItunesList:
     case MovieFragment:
+    case MovieFragmentRandomAccess:
     case TrackFragment:
     case TrackReference:
     case MovieExtends:
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 7ec43e6..a0c9e35 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -11,6 +11,7 @@
 #include <c++utilities/io/copy.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
 #include <filesystem>
 #include <memory>
 #include <numeric>
@@ -926,6 +927,46 @@ calculatePadding:
     }
 }
 
+/*!
+ * \brief Updates the offsets of movie fragments within the specified \a tfraAtom.
+ * \sa See updateOffsets() for details about \a oldOffsets and \a newOffsets.
+ */
+void Mp4Container::updateMovieFragmentOffsets(
+    Mp4Atom &tfraAtom, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets, Diagnostics &diag)
+{
+    if (tfraAtom.dataSize() < 16) {
+        diag.emplace_back(DiagLevel::Warning, "tfra atom is truncated.", "updating MP4 container chunk offset table");
+        return;
+    }
+    stream().seekg(static_cast<std::streamoff>(tfraAtom.dataOffset()));
+    const auto use64Bit = reader().readByte() == 1;
+    stream().seekg(3 + 4, ios_base::cur); // skip flags and track ID
+    const auto lengths = reader().readUInt32BE();
+    const auto entryCount = static_cast<std::uint64_t>(reader().readUInt32BE());
+    const auto entrySize = static_cast<std::uint64_t>(
+        (use64Bit ? 16 : 8) + ((lengths >> 4) & 0x03) + 1 + ((lengths >> 2) & 0x03) + 1 + (lengths & 0x03) + 1);
+    if (entryCount > (tfraAtom.dataSize() - 16) / entrySize) {
+        diag.emplace_back(DiagLevel::Warning, "tfra atom denotes more entries than it contains.", "updating MP4 container chunk offset table");
+        return;
+    }
+    for (auto entryOffset = tfraAtom.dataOffset() + 16, end = entryOffset + entryCount * entrySize; entryOffset != end; entryOffset += entrySize) {
+        const auto fieldOffset = static_cast<std::streamoff>(entryOffset + (use64Bit ? 8 : 4)); // skip time
+        stream().seekg(fieldOffset);
+        const auto offset = use64Bit ? reader().readUInt64BE() : reader().readUInt32BE();
+        const auto i = std::find(oldOffsets.cbegin(), oldOffsets.cend(), static_cast<std::int64_t>(offset));
+        if (i == oldOffsets.cend()) {
+            continue;
+        }
+        const auto newOffset = newOffsets[static_cast<std::size_t>(i - oldOffsets.cbegin())];
+        stream().seekp(fieldOffset);
+        if (use64Bit) {
+            writer().writeUInt64BE(static_cast<std::uint64_t>(newOffset));
+        } else {
+            writer().writeUInt32BE(static_cast<std::uint32_t>(newOffset));
+        }
+    }
+}
+
 /*!
  * \brief Update the chunk offsets for each track of the file.
  * \param oldMdatOffsets Specifies a vector holding the old offsets of the "mdat"-atoms.
@@ -1005,6 +1046,18 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
     } catch (const Failure &) {
         diag.emplace_back(DiagLevel::Critical, "Unable to parse top-level atom moof.", context);
     }
+    // update offsets of movie fragments stored in "tfra"-atoms
+    try {
+        for (Mp4Atom *mfraAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::MovieFragmentRandomAccess, diag); mfraAtom;
+            mfraAtom = mfraAtom->siblingById(Mp4AtomIds::MovieFragmentRandomAccess, diag)) {
+            for (Mp4Atom *tfraAtom = mfraAtom->childById(Mp4AtomIds::TrackFragmentRandomAccess, diag); tfraAtom;
+                tfraAtom = tfraAtom->siblingById(Mp4AtomIds::TrackFragmentRandomAccess, diag)) {
+                updateMovieFragmentOffsets(*tfraAtom, oldMdatOffsets, newMdatOffsets, diag);
+            }
+        }
+    } catch (const Failure &) {
+        diag.emplace_back(DiagLevel::Critical, "Unable to parse top-level atom mfra.", context);
+    }
     // update each track
     for (auto &track : tracks()) {
         if (!track->isHeaderValid()) {
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index c636947..504aecb 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -37,6 +37,8 @@ protected:
 private:
     void updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets, const std::vector<std::int64_t> &newMdatOffsets, Diagnostics &diag,
         AbortableProgressFeedback &progress);
+    void updateMovieFragmentOffsets(
+        Mp4Atom &tfraAtom, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets, Diagnostics &diag);
 
     bool m_fragmented;
 };
diff --git a/mp4/mp4ids.h b/mp4/mp4ids.h
index 13a94cd..e00d3d0 100644
--- a/mp4/mp4ids.h
+++ b/mp4/mp4ids.h
@@ -70,6 +70,7 @@ enum KnownValue : std::uint32_t {
     TrackFragmentHeader = 0x74666864, /**< tfhd */
     TrackHeader = 0x746b6864, /**< tkhd */
     TrackFragment = 0x74726166, /**< traf */
+    TrackFragmentRandomAccess = 0x74667261, /**< tfra */
     Track = 0x7472616b, /**< trak */
     TrackReference = 0x74726566, /**< tref */
     TrackExtends = 0x74726578, /**< trex */
-- 
2.43.0


From 16dd15778cdc15488cb98004e3338bca84547d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 049/118] fix: replace pre-defined genre when setting multiple
 values of an MP4 tag

---
 mp4/mp4tag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 744249f..39ec386 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -347,6 +347,9 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
             return true; // field is only stored via extended field
         }
     }
+    if (field == KnownField::Genre) {
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre); // would otherwise still be present (see setValue())
+    }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
 }
 
-- 
2.43.0


From 452fce758ae6d2aab570a27011c88e04a541b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:11 +0000
Subject: [PATCH 050/118] fix: only report new path of MP4 file when applying
 changes succeeded

---
 mp4/mp4container.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a0c9e35..92a1dc1 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -579,7 +579,7 @@ calculatePadding:
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
@@ -845,14 +845,10 @@ calculatePadding:
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(outputStream));
-            // "save as path" is now the regular path
-            if (!fileInfo().saveFilePath().empty()) {
-                fileInfo().reportPathChanged(fileInfo().saveFilePath());
-                fileInfo().setSaveFilePath(string());
-            }
             // the outputStream needs to be reopened to be able to read again
             outputStream.close();
-            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath()).data(),
+                ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = BasicFileInfo::currentWriteOffset(outputStream);
@@ -921,6 +917,12 @@ calculatePadding:
         // prevent deferring final write operations (to catch and handle possible errors here)
         outputStream.flush();
 
+        // "save as path" is now the regular path
+        if (!fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // handle errors (which might have been occurred after renaming/creating backup file)
     } catch (...) {
         BackupHelper::handleFailureAfterFileModifiedCanonical(fileInfo(), originalPath, backupPath, outputStream, backupStream, diag, context);
-- 
2.43.0


From d21c00b50e6e10056d5fee67814226930cb92578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:11 +0000
Subject: [PATCH 051/118] fix: only report new path of Matroska file when
 applying changes succeeded

---
 matroska/matroskacontainer.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 86bf1f4..3d5400b 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1833,15 +1833,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             // report new size
             fileInfo().reportSizeChanged(BasicFileInfo::currentWriteOffset(outputStream));
 
-            // "save as path" is now the regular path
-            if (!fileInfo().saveFilePath().empty()) {
-                fileInfo().reportPathChanged(fileInfo().saveFilePath());
-                fileInfo().setSaveFilePath(string());
-            }
 
             // the outputStream needs to be reopened to be able to read again
             outputStream.close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().saveFilePath().empty() ? fileInfo().path() : fileInfo().saveFilePath()).data(),
+                ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = BasicFileInfo::currentWriteOffset(outputStream);
@@ -1887,6 +1883,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // prevent deferring final write operations (to catch and handle possible errors here)
         outputStream.flush();
 
+        // "save as path" is now the regular path
+        if (!fileInfo().saveFilePath().empty()) {
+            fileInfo().reportPathChanged(fileInfo().saveFilePath());
+            fileInfo().setSaveFilePath(string());
+        }
+
         // handle errors (which might have been occurred after renaming/creating backup file)
     } catch (...) {
         BackupHelper::handleFailureAfterFileModifiedCanonical(fileInfo(), originalPath, backupPath, outputStream, backupStream, diag, context);
-- 
2.43.0


From 416ebda863260194da516ade5c71a6e9983c8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 052/118] fix: avoid writing invalid padding of one byte to
 Matroska files

---
 matroska/matroskacontainer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 3d5400b..0c86361 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1333,10 +1333,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
-                                if (segment.newPadding != 1) {
-                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                if ((segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset) != 1) {
+                                    newPadding += segment.newPadding;
                                 } else {
+                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
                                     rewriteRequired = true;
                                 }
                             } else {
@@ -1371,8 +1371,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        segment.newPadding = newPadding = fileInfo().preferredPadding() != 1 ? fileInfo().preferredPadding() : 2;
+                        segment.totalDataSize += segment.newPadding;
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From b698a3023ddbddbc05be74571dca628896b3b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 053/118] fix: compute size of binary Matroska tag fields
 correctly

---
 matroska/matroskatagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..b4c3775 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -237,6 +237,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
     const auto languageIETFElementSize
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
+    // compute size of the "TagString"/"TagBinary" element
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+
     // compute "SimpleTag" element size
     m_simpleTagSize =
         // "TagName" element
@@ -248,8 +251,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From b11dc6a03e91b77293f95d6350aac3404c92d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 054/118] fix: compute CRC-32 of Matroska segments correctly
 and write it to the right place

---
 matroska/matroskacontainer.cpp | 36 +++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 0c86361..dfa591f 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -15,6 +15,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
+#include <array>
 #include <chrono>
 #include <filesystem>
 #include <functional>
@@ -809,6 +811,36 @@ void MatroskaContainer::internalParseAttachments(Diagnostics &diag, AbortablePro
     }
 }
 
+/*!
+ * \brief Computes the CRC-32 checksum as used by EBML (IEEE polynomial) over the next \a length bytes of the specified \a stream.
+ * \remarks This is different from the CRC-32 checksum computed via BinaryReader::readCrc32() which is the variant used by Ogg.
+ */
+static std::uint32_t computeEbmlCrc32(std::istream &stream, std::uint64_t length)
+{
+    static const auto table = [] {
+        auto res = std::array<std::uint32_t, 256>();
+        for (auto i = std::uint32_t(); i != res.size(); ++i) {
+            auto value = i;
+            for (auto bit = 0; bit != 8; ++bit) {
+                value = (value & 1u) ? ((value >> 1) ^ 0xEDB88320u) : (value >> 1);
+            }
+            res[i] = value;
+        }
+        return res;
+    }();
+    auto buffer = std::array<char, 0x4000>();
+    auto crc = std::uint32_t(0xFFFFFFFFu);
+    while (length) {
+        const auto chunkSize = static_cast<std::size_t>(std::min<std::uint64_t>(length, buffer.size()));
+        stream.read(buffer.data(), static_cast<std::streamsize>(chunkSize));
+        for (auto i = std::size_t(); i != chunkSize; ++i) {
+            crc = table[(crc ^ static_cast<unsigned char>(buffer[i])) & 0xFFu] ^ (crc >> 8);
+        }
+        length -= chunkSize;
+    }
+    return crc ^ 0xFFFFFFFFu;
+}
+
 /// \brief The private SegmentData struct is used in MatroskaContainer::internalMakeFile() to store segment specific data.
 struct SegmentData {
     /// \brief Constructs a new segment data object.
@@ -1875,9 +1907,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         if (!crc32Offsets.empty()) {
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
+                // compute the checksum before seeking to the position to write it (as file streams have only one position)
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
+                const auto crc32 = computeEbmlCrc32(outputStream, get<1>(crc32Offset) - 6);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(reader().readCrc32(get<1>(crc32Offset) - 6));
+                writer().writeUInt32LE(crc32);
             }
         }
 
-- 
2.43.0


From 624687354485386509adc8fe5179a817aece4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 055/118] fix: actually update positions of Matroska clusters
 when updating in place

---
 matroska/matroskacontainer.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index dfa591f..7014b3a 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1301,6 +1301,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     && newCuesPos == ElementPosition::BeforeData) {
                                     cuesInvalidated = true;
                                 }
+                                // parse children as "Position"-elements might need to be updated
+                                for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                    level2Element->parse(diag);
+                                }
                                 // check whether aborted (because this loop might take some seconds to process)
                                 progress.stopIfAborted();
                                 // update the progress percentage (using offset / file size should be accurate enough)
@@ -1789,11 +1793,20 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((BasicFileInfo::currentWriteOffset(outputStream) - offset) * 100 / segment.totalDataSize));
-                    for (; level1Element; level1Element = level1Element->nextSibling()) {
+                    for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
+                        EbmlElement *crc32Element = nullptr;
+                        auto clusterModified = false;
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
                             switch (level2Element->id()) {
+                            case EbmlIds::Crc32:
+                                crc32Element = level2Element;
+                                break;
                             case MatroskaIds::Position:
                                 // calculate new position
+                                if (level2Element->readUInteger() == level1Element->startOffset() - segmentData.front().newDataOffset) {
+                                    break;
+                                }
+                                clusterModified = true;
                                 sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
                                 // new position can only applied if it doesn't need more bytes than the previous position
@@ -1810,6 +1823,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             default:;
                             }
                         }
+                        // void checksum if it is no longer valid
+                        if (crc32Element && clusterModified) {
+                            outputStream.seekp(static_cast<streamoff>(crc32Element->startOffset()));
+                            outputStream.put(static_cast<char>(EbmlIds::Void));
+                        }
                     }
                     // skip existing "Cluster"-elements
                     outputStream.seekp(static_cast<streamoff>(segment.clusterEndOffset));
-- 
2.43.0


From f52fa9f2da2ebf53a8d73323e0885849d8f37e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 056/118] fix: void outdated elements between Matroska clusters
 when updating in place

---
 matroska/matroskacontainer.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 7014b3a..65a319f 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1829,6 +1829,27 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             outputStream.put(static_cast<char>(EbmlIds::Void));
                         }
                     }
+                    // void elements between clusters which have been written somewhere else
+                    for (level1Element = segment.firstClusterElement; level1Element && level1Element->startOffset() < segment.clusterEndOffset;
+                        level1Element = level1Element->nextSibling()) {
+                        switch (level1Element->id()) {
+                        case MatroskaIds::SeekHead:
+                        case MatroskaIds::SegmentInfo:
+                        case MatroskaIds::Tracks:
+                        case MatroskaIds::Chapters:
+                        case MatroskaIds::Tags:
+                        case MatroskaIds::Attachments:
+                        case MatroskaIds::Cues:
+                            // -> the IDs are 4 byte long so there is always enough room for a longer size denotation
+                            sizeLength = level1Element->headerSize() > 9 ? 8 : static_cast<std::uint8_t>(level1Element->headerSize() - 1);
+                            outputStream.seekp(static_cast<streamoff>(level1Element->startOffset()));
+                            outputWriter.writeByte(EbmlIds::Void);
+                            EbmlElement::makeSizeDenotation(level1Element->totalSize() - 1 - sizeLength, buff, sizeLength);
+                            outputStream.write(buff, sizeLength);
+                            break;
+                        default:;
+                        }
+                    }
                     // skip existing "Cluster"-elements
                     outputStream.seekp(static_cast<streamoff>(segment.clusterEndOffset));
                 }
-- 
2.43.0


From 37e17dad61013ad311482c0b2b01207ecbc0cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 057/118] fix: update sizes of previous clusters when rewriting
 Matroska files

---
 matroska/matroskacontainer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 65a319f..57f02b1 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -947,7 +947,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     // size length used to make size denotations
     std::uint8_t sizeLength;
     // sizes and offsets for cluster calculation
-    std::uint64_t clusterSize, clusterReadSize, clusterReadOffset;
+    std::uint64_t clusterSize, clusterReadSize, clusterReadOffset, previousClusterSize;
 
     // define variables needed to manage file layout
     // -> use the preferred tag position by default (might be changed later if not forced)
@@ -1414,6 +1414,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Cluster"-element
                     segment.clusterSizes.clear();
+                    previousClusterSize = 0;
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
@@ -1441,13 +1442,16 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case MatroskaIds::Position:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
                                         break;
+                                    case MatroskaIds::PrevSize:
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(previousClusterSize);
+                                        break;
                                     default:
                                         clusterSize += level2Element->totalSize();
                                     }
                                     clusterReadSize += level2Element->totalSize();
                                 }
                                 segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                segment.totalDataSize += previousClusterSize = 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
                             }
                         }
                         // check whether aborted (because this loop might take some seconds to process)
@@ -1762,6 +1766,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // write "Cluster"-element
                     auto clusterSizesIterator = segment.clusterSizes.cbegin();
                     unsigned int index = 0;
+                    previousClusterSize = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
                         clusterSize = currentPosition + (BasicFileInfo::currentWriteOffset(outputStream) - offset);
@@ -1778,10 +1783,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                EbmlElement::makeSimpleElement(outputStream, MatroskaIds::PrevSize, previousClusterSize);
+                                break;
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
                         }
+                        previousClusterSize = 4u + sizeLength + *clusterSizesIterator;
                         // update percentage, check whether the operation has been aborted
                         progress.stopIfAborted();
                         if (index % 50 == 0) {
-- 
2.43.0


From e6046e4ce600b0e7ad2bc2a9301458f80c162742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 058/118] fix: restart step when re-calculating cluster offsets
 of Matroska files

---
 matroska/matroskacontainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 57f02b1..1f1bb9a 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1253,8 +1253,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Cues"-element
-                        progress.updateStep("Calculating cluster offsets and index size ...");
                     addCuesElementSize:
+                        progress.updateStep("Calculating cluster offsets and index size ...");
                         segment.totalDataSize += segment.cuesUpdater.totalSize();
                     }
                 } else {
-- 
2.43.0


From f6412f43eec4879e02f12e24fc302a5aacb25555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:02 +0000
Subject: [PATCH 059/118] fix: find attachments behind clusters of Matroska
 files without "SeekHead"-element

---
 matroska/matroskacontainer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 1f1bb9a..b0377d5 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -563,8 +563,9 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                                     }
                                 }
                             }
-                            // -> stop if tracks and tags have been found or the file exceeds the max. size to fully process
-                            if (((!m_tracksElements.empty() && !m_tagsElements.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
+                            // -> stop if tracks and tags have been found (and further elements are denoted by seek tables) or the file exceeds
+                            //    the max. size to fully process
+                            if (((!m_tracksElements.empty() && !m_tagsElements.empty() && !m_seekInfos.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
                                 && !m_segmentInfoElements.empty()) {
                                 goto finish;
                             }
-- 
2.43.0


From 8c30e7e245ad1f5ad81bf539f0c99543c27e01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 060/118] fix: write "CueReference"-elements of Matroska files
 correctly

---
 matroska/matroskacues.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskacues.cpp b/matroska/matroskacues.cpp
index ff48ec2..a092693 100644
--- a/matroska/matroskacues.cpp
+++ b/matroska/matroskacues.cpp
@@ -330,7 +330,7 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                 break;
                             case MatroskaIds::CueReference:
                                 // write "CueReference"-element
-                                stream.put(static_cast<char>(MatroskaIds::CueRefTime));
+                                stream.put(static_cast<char>(MatroskaIds::CueReference));
                                 len = EbmlElement::makeSizeDenotation(m_sizes[cueTrackPositionsChild], buff);
                                 stream.write(buff, len);
                                 for (EbmlElement *cueReferenceChild = cueTrackPositionsChild->firstChild(); cueReferenceChild;
@@ -345,7 +345,6 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                         // write unchanged children of "CueReference"-element
                                         cueReferenceChild->copyBuffer(stream);
                                         cueReferenceChild->discardBuffer();
-                                        cueReferenceChild->copyEntirely(stream, diag, nullptr);
                                         break;
                                     case MatroskaIds::CueRefCluster:
                                     case MatroskaIds::CueRefCodecState:
-- 
2.43.0


From 52112ff9f382a409665d640f02b512688a15d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 061/118] fix: avoid truncating Matroska files without clusters

---
 matroska/matroskacontainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index b0377d5..a11e5b1 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1383,7 +1383,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             rewriteRequired = true;
                         }
                     } else {
+                        // without clusters there is no position the header could be aligned to
                         diag.emplace_back(DiagLevel::Warning, argsToString("There are no clusters in segment ", segmentIndex, "."), context);
+                        rewriteRequired = true;
                     }
 
                     if (rewriteRequired) {
-- 
2.43.0


From c1ae45b3a9c3ab42f9c37896d3bb2b5d34510e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 062/118] fix: avoid endless loop when computing size
 denotation of Matroska segment

---
 matroska/matroskacontainer.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index a11e5b1..cdbf3f5 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1276,13 +1276,16 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             // - the header size hasn't been taken into account yet
                             // - seek information for first cluster and subsequent tags and attachments hasn't been taken into account
 
-                            // assume the size denotation length doesn't change -> use length from original file
+                            // assume the size denotation length doesn't change -> use length from original file (as minimum so the calculations
+                            // are guaranteed to come to an end)
                             if (level0Element->headerSize() <= 4 || level0Element->headerSize() > 12) {
                                 // validate original header size
                                 diag.emplace_back(DiagLevel::Critical, "Header size of \"Segment\"-element from original file is invalid.", context);
                                 throw InvalidDataException();
                             }
-                            segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            if (!segment.sizeDenotationLength) {
+                                segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            }
 
                         nonRewriteCalculations:
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
@@ -1356,14 +1359,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                             // calculate total offset again (taking everything into account)
                             // -> check whether assumed size denotation was correct
-                            if (segment.sizeDenotationLength != (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
+                            if (segment.sizeDenotationLength < (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
                                 // assumption was wrong -> recalculate with new length
                                 segment.sizeDenotationLength = sizeLength;
                                 level1Element = segment.firstClusterElement;
                                 goto nonRewriteCalculations;
                             }
 
-                            totalOffset = currentOffset + 4 + sizeLength + offset;
+                            totalOffset = currentOffset + 4 + segment.sizeDenotationLength + offset;
                             // offset does not include size of "Cues"-element
                             if (newCuesPos == ElementPosition::BeforeData) {
                                 totalOffset += segment.cuesUpdater.totalSize();
@@ -1407,6 +1410,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     }
                 } else {
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
+                    segment.sizeDenotationLength = 0;
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
@@ -1515,7 +1519,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 ++segmentIndex;
 
                 // increase write offsets by the size of the segment which size has just been computed
-                segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
+                segment.totalSize = 4 + std::max(segment.sizeDenotationLength, EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))
+                    + segment.totalDataSize;
                 currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
@@ -1649,7 +1654,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // write "Segment"-element actually
                 progress.updateStep("Writing segment header ...");
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
-                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
+                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff, segment.sizeDenotationLength);
                 outputStream.write(buff, sizeLength);
                 segment.newDataOffset = offset = BasicFileInfo::currentWriteOffset(outputStream); // store segment data offset here
 
-- 
2.43.0


From 6b349e7e68890834b3c73addc0867ac8241e8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 063/118] fix: Avoid reading past the bitrate table for MPEG
 audio frames with invalid bitrate index

---
 mpegaudio/mpegaudioframe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..4c02212 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -108,8 +108,8 @@ constexpr bool MpegAudioFrame::isProtectedByCrc() const
  */
 inline std::uint16_t MpegAudioFrame::bitrate() const
 {
-    if (mpegVersion() > 0.0 && layer() > 0) {
-        return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][(m_header & 0xf000u) >> 12];
+    if (const auto index = (m_header & 0xf000u) >> 12; index < 0xF && mpegVersion() > 0.0 && layer() > 0) {
+        return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][index];
     } else {
         return 0;
     }
-- 
2.43.0


From cf5a6dffd2ebb0e2417c0d14a34ea5178221a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 064/118] fix: Avoid exhausting the stack when destroying
 elements with many siblings

---
 genericfileelement.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index c52029f..d2dd23b 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -65,6 +65,7 @@ public:
     GenericFileElement(ContainerType &container, std::uint64_t startOffset, std::uint64_t maxSize);
     GenericFileElement(const GenericFileElement &other) = delete;
     GenericFileElement(GenericFileElement &other) = delete;
+    ~GenericFileElement();
     GenericFileElement &operator=(const GenericFileElement &other) = delete;
 
     ContainerType &container();
@@ -218,6 +219,17 @@ GenericFileElement<ImplementationType>::GenericFileElement(
 {
 }
 
+/*!
+ * \brief Destroys the element and all subsequent elements.
+ * \remarks Siblings are destroyed one by one as a file might contain so many of them that a recursion would exhaust the stack.
+ */
+template <class ImplementationType> GenericFileElement<ImplementationType>::~GenericFileElement()
+{
+    while (m_nextSibling) {
+        m_nextSibling = std::move(m_nextSibling->m_nextSibling);
+    }
+}
+
 /*!
  * \brief Returns the related container.
  */
-- 
2.43.0


From 6c1c1d462412349619af3cc72774f2a9d0a816fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 065/118] fix: Validate siblings iteratively and only once to
 avoid exhausting the stack and wrong padding sizes

---
 genericfileelement.h | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index d2dd23b..a1a0aed 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -835,25 +835,28 @@ template <class ImplementationType>
 void GenericFileElement<ImplementationType>::validateSubsequentElementStructure(
     Diagnostics &diag, std::uint64_t *paddingSize, AbortableProgressFeedback *progress)
 {
-    if (progress) {
-        progress->stopIfAborted();
-    }
-    // validate element itself by just parsing it
-    parse(diag);
-    // validate children
-    if (firstChild()) {
-        try {
-            firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
-        } catch (const Failure &) {
-            // ignore critical errors in child structure to continue validating siblings
-            // (critical notifications about the errors should have already been added to diag, so nothing to do)
+    const auto *const initialParent = m_parent;
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        if (progress) {
+            progress->stopIfAborted();
+        }
+        // validate element itself by just parsing it
+        element->parse(diag);
+        // stop if the element turned out to belong higher up in the hierarchy as it will be validated there
+        if (element->m_parent != initialParent) {
+            return;
+        }
+        // validate children
+        if (auto *const firstChild = element->firstChild()) {
+            try {
+                firstChild->validateSubsequentElementStructure(diag, paddingSize, progress);
+            } catch (const Failure &) {
+                // ignore critical errors in child structure to continue validating siblings
+                // (critical notifications about the errors should have already been added to diag, so nothing to do)
+            }
+        } else if (paddingSize && element->isPadding()) { // element is padding
+            *paddingSize += element->totalSize();
         }
-    } else if (paddingSize && isPadding()) { // element is padding
-        *paddingSize += totalSize();
-    }
-    // validate siblings
-    if (nextSibling()) {
-        nextSibling()->validateSubsequentElementStructure(diag, paddingSize, progress);
     }
 }
 
-- 
2.43.0


From 6f437578ad2d4abcd7bf832da45caca23979b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 066/118] fix: Limit the nesting level of elements to avoid
 exhausting the stack

---
 genericfileelement.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index a1a0aed..9123f0c 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -1,6 +1,7 @@
 #ifndef TAG_PARSER_GENERICFILEELEMENT_H
 #define TAG_PARSER_GENERICFILEELEMENT_H
 
+#include "./diagnostics.h"
 #include "./exceptions.h"
 #include "./progressfeedback.h"
 
@@ -20,8 +21,6 @@ class BinaryWriter;
 
 namespace TagParser {
 
-class Diagnostics;
-
 /*!
  * \class TagParser::FileElementTraits
  * \brief Defines traits for the specified \a ImplementationType.
@@ -791,6 +790,13 @@ template <class ImplementationType> void GenericFileElement<ImplementationType>:
 template <class ImplementationType> void GenericFileElement<ImplementationType>::parse(Diagnostics &diag)
 {
     if (!m_parsed) {
+        // refuse parsing excessively nested structures as processing them recursively would exhaust the stack
+        constexpr std::uint8_t maxLevel = 100;
+        if (level() > maxLevel) {
+            diag.emplace_back(
+                DiagLevel::Critical, "The element at " + std::to_string(startOffset()) + " is nested too deeply.", "parsing element header");
+            throw InvalidDataException();
+        }
         static_cast<ImplementationType *>(this)->internalParse(diag);
         m_parsed = true;
     }
-- 
2.43.0


From e687d312d35888f946a455f728b30dd9d2fc5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 067/118] fix: Avoid quadratic run-time when parsing EBML
 elements of unknown size

---
 matroska/ebmlelement.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..862e6a5 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -131,7 +131,15 @@ void EbmlElement::internalParse(Diagnostics &diag)
                         }
                     }
                     // insert as child of better parent
-                    if (EbmlElement *previousSibling = betterParent->lastChild()) {
+                    // note: The last child of the better parent must be the so far assumed (grand)parent because parents of unknown size
+                    //       take all of the available space.
+                    auto *previousSibling = m_parent;
+                    while (previousSibling->m_parent != betterParent) {
+                        previousSibling = previousSibling->m_parent;
+                    }
+                    if (!previousSibling->m_nextSibling) {
+                        previousSibling->m_nextSibling.reset(this);
+                    } else if ((previousSibling = betterParent->lastChild())) {
                         previousSibling->m_nextSibling.reset(this);
                     } else {
                         betterParent->m_firstChild.reset(this);
-- 
2.43.0


From 1a90886e4f9e388de6eabfeb510ca67265999a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 068/118] fix: Avoid reading past the pages if a comment ends
 with the last page of an Ogg file

---
 ogg/oggcontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ba1fe04..c89f98e 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -310,6 +310,11 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         }
         params.lastPageIndex = m_iterator.currentPageIndex();
         params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        if (params.lastPageIndex >= m_iterator.pages().size()) {
+            // the comment ends with the last page so the iterator went past the end
+            params.lastPageIndex = m_iterator.pages().size() - 1;
+            params.lastSegmentIndex = std::max<std::size_t>(m_iterator.pages().back().segmentSizes().size(), 1) - 1;
+        }
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
-- 
2.43.0


From 8562a5ac38e0b96f854a56a1e8debed2090d63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 069/118] fix: Check the sampling frequency index against the
 number of table entries rather than the table size in bytes

---
 aac/aacframe.cpp           | 6 +++---
 adts/adtsstream.cpp        | 2 +-
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..dd72eee 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..9253f72 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..e441215 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 2b3a0d4..97a1c57 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1891,14 +1891,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From d022462609bf27d5b2eb6b4e89fed2a9e0f757e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:49 +0000
Subject: [PATCH 070/118] fix: Avoid division by zero when parsing MP4 files
 with a time scale of zero

---
 mp4/mp4container.cpp | 24 ++++++++++++++++++------
 mp4/mp4track.cpp     |  4 +++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 92a1dc1..f9cc427 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -139,15 +139,23 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            if (m_timeScale) {
+                                m_duration /= static_cast<TimeSpan::TickType>(m_timeScale);
+                            } else {
+                                m_duration = TimeSpan();
+                            }
                             break;
                         case 1:
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            if (m_timeScale) {
+                                m_duration /= static_cast<TimeSpan::TickType>(m_timeScale);
+                            } else {
+                                m_duration = TimeSpan();
+                            }
                             break;
                         default:;
                         }
@@ -170,10 +178,14 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            if (const auto duration = reader().readUInt32BE(); m_timeScale) {
+                                m_duration = TimeSpan::fromSeconds(static_cast<double>(duration) / static_cast<double>(m_timeScale));
+                            }
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            if (const auto duration = reader().readUInt64BE(); m_timeScale) {
+                                m_duration = TimeSpan::fromSeconds(static_cast<double>(duration) / static_cast<double>(m_timeScale));
+                            }
                             break;
                         default:;
                         }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 97a1c57..8a328c2 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1681,7 +1681,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_duration = m_timeScale
+        ? TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale)
+        : TimeSpan();
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
-- 
2.43.0


From d4bce88e93af76d9d7ac46ea615990f311db0da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:49 +0000
Subject: [PATCH 071/118] fix: Avoid reading past the pages when incrementing
 an invalid OggIterator

---
 ogg/oggiterator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index dcfc003..aec51a5 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -76,10 +76,13 @@ void OggIterator::nextPage()
 
 /*!
  * \brief Increases the current position by one segment. Enters the next page if the current segment is the last one in the current page.
- * \remarks The iterator must be valid. The iterator might be invalidated.
+ * \remarks Does nothing if the iterator is invalid. The iterator might be invalidated.
  */
 void OggIterator::nextSegment()
 {
+    if (!*this) {
+        return;
+    }
     const OggPage &page = m_pages[m_page];
     if (matchesFilter(page) && ++m_segment < page.segmentSizes().size()) {
         // current page has next segment
@@ -99,7 +102,7 @@ void OggIterator::previousPage()
 {
     while (m_page) {
         const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
             m_bytesRead = 0;
             return;
-- 
2.43.0


From 8e23f8550383978430f0a0ea9e5149fd84c25579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 072/118] fix: Avoid underflow when the header of an EBML
 element of unknown size is truncated

---
 matroska/ebmlelement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 862e6a5..ade4ec8 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -157,6 +157,12 @@ void EbmlElement::internalParse(Diagnostics &diag)
         if ((m_sizeUnknown = (beg == 0xFF))) {
             // this indicates that the element size is unknown
             // -> just assume the element takes the maximum available size
+            if (headerSize() > maxTotalSize()) {
+                if (!skipped) {
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
+                }
+                continue; // try again
+            }
             m_dataSize = maxTotalSize() - headerSize();
         } else {
             while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
-- 
2.43.0


From b3745a8e1a3c497e62a95a749b4426c7bb82fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 073/118] fix: Avoid unhandled exception when warning about
 additional values which cannot be converted

---
 id3/id3v2frame.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index b6744da..8f3c43a 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -489,9 +489,14 @@ void Id3v2Frame::internallyClearFurtherData()
 std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
 {
     if (m_additionalValues.size() == 1) {
-        return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+        return argsToString("Additional value \"", m_additionalValues.front().toDisplayString(), "\" is supposed to be ignored.");
     }
-    return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
+    auto values = std::vector<std::string>();
+    values.reserve(m_additionalValues.size());
+    for (const auto &value : m_additionalValues) {
+        values.emplace_back(value.toDisplayString());
+    }
+    return argsToString("Additional values ", DiagMessage::formatList(values), " are supposed to be ignored.");
 }
 
 /*!
-- 
2.43.0


From 20988da71951d917cc8bbbadb9dcd305e8377af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 074/118] fix: Avoid overflow when computing the total size of
 ID3v2 frames

---
 id3/id3v2frame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 8f3c43a..e57e355 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -200,8 +200,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        m_totalSize = m_dataSize <= numeric_limits<std::uint32_t>::max() - 10 ? m_dataSize + 10 : numeric_limits<std::uint32_t>::max();
+        if (m_totalSize > maximalSize || m_totalSize - 10 != m_dataSize) {
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
-- 
2.43.0


From 3314d62c1849f0d229b4d21a3841f0f97ebed232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 075/118] fix: Reset the effective size when clearing the
 parsing results

---
 mediafileinfo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 7c24b7f..d2fe8fe 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1381,6 +1381,7 @@ void MediaFileInfo::clearParsingResults()
     m_containerFormat = ContainerFormat::Unknown;
     m_containerOffset = 0;
     m_paddingSize = 0;
+    m_effectiveSize = 0;
     m_tracksParsingStatus = ParsingStatus::NotParsedYet;
     m_tagsParsingStatus = ParsingStatus::NotParsedYet;
     m_chaptersParsingStatus = ParsingStatus::NotParsedYet;
-- 
2.43.0


From 0fcded75c10c4433058e67a4854b9e7a60c1e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 076/118] fix: Avoid division by zero when parsing WAV files
 with a block size of zero

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index e758cd1..02fefe2 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -173,7 +173,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = BasicFileInfo::currentReadOffset(*m_istream);
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
+            m_sampleCount = m_chunkSize ? m_size / m_chunkSize : 0;
             m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             break;
         default:;
-- 
2.43.0


From e5e46d49aaa35b8026dbba18e5e0cba04e382ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 077/118] fix: Avoid allocating memory for FLAC meta-data
 exceeding the file

---
 flac/flacstream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 5a591d4..722b83b 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -92,6 +92,10 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         // remember start offset
         const auto startOffset = static_cast<std::streamoff>(BasicFileInfo::currentReadOffset(*m_istream));
 
+        // avoid allocating memory for data exceeding the file
+        const auto bytesAvailable = m_mediaFileInfo.size() - std::min(m_mediaFileInfo.size(), static_cast<std::uint64_t>(startOffset));
+        const auto maxDataSize = static_cast<std::uint32_t>(std::min<std::uint64_t>(header.dataSize(), bytesAvailable));
+
         // parse relevant meta data
         switch (static_cast<FlacMetaDataBlockType>(header.type())) {
         case FlacMetaDataBlockType::StreamInfo:
@@ -120,7 +124,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 if (m_mediaFileInfo.fileHandlingFlags() & MediaFileHandlingFlags::ConvertTotalFields) {
                     flags += VorbisCommentFlags::ConvertTotalFields;
                 }
-                m_vorbisComment->parse(*m_istream, header.dataSize(), flags, diag);
+                m_vorbisComment->parse(*m_istream, maxDataSize, flags, diag);
             } catch (const Failure &) {
                 // error is logged via notifications, just continue with the next metadata block
             }
@@ -132,7 +136,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 VorbisCommentField coverField;
                 coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
-                picture.parse(*m_istream, header.dataSize());
+                picture.parse(*m_istream, maxDataSize);
                 coverField.setTypeInfo(picture.pictureType());
 
                 if (coverField.value().isEmpty()) {
-- 
2.43.0


From 14f3ea54a2d58ca2b79ce81427da9c5a1a346016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:18 +0000
Subject: [PATCH 078/118] fix: Avoid excessive loop when MP4 track fragments
 contain only samples using the defaults

---
 mp4/mp4track.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a328c2..c39f41a 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -307,7 +307,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                             }
                             for (Mp4Atom *trunAtom = trafAtom->childById(Mp4AtomIds::TrackFragmentRun, diag); trunAtom;
                                 trunAtom = trunAtom->siblingById(Mp4AtomIds::TrackFragmentRun, diag)) {
-                                std::uint32_t trunCalculatedDataSize = 8;
+                                std::uint64_t trunCalculatedDataSize = 8;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                                 } else {
@@ -334,7 +334,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                     if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                         entrySize += 4;
                                     }
-                                    trunCalculatedDataSize += entrySize * sampleCount;
+                                    trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                     if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                         diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                     } else {
@@ -345,6 +345,10 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                         if (trunFlags & 0x000004) { // first-sample-flags present
                                             inputStream().seekg(4, ios_base::cur);
                                         }
+                                        if (!entrySize) { // all samples use the defaults
+                                            m_size += static_cast<std::uint64_t>(defaultSampleSize) * sampleCount;
+                                            sampleCount = 0;
+                                        }
                                         for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                             if (trunFlags & 0x000100) { // sample-duration present
                                                 //totalDuration += reader().readUInt32BE();
@@ -2082,7 +2086,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         }
                         for (Mp4Atom *trunAtom = trafAtom->childById(TrackFragmentRun, diag); trunAtom;
                             trunAtom = trunAtom->siblingById(TrackFragmentRun, diag)) {
-                            std::uint32_t trunCalculatedDataSize = 8;
+                            std::uint64_t trunCalculatedDataSize = 8;
                             if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                 diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                             } else {
@@ -2109,7 +2113,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                 if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                     entrySize += 4;
                                 }
-                                trunCalculatedDataSize += entrySize * sampleCount;
+                                trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                 } else {
@@ -2120,6 +2124,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     if (trunFlags & 0x000004) { // first-sample-flags present
                                         m_istream->seekg(4, ios_base::cur);
                                     }
+                                    if (!entrySize) { // all samples use the defaults
+                                        totalDuration += static_cast<std::uint64_t>(defaultSampleDuration) * sampleCount;
+                                        m_size += static_cast<std::uint64_t>(defaultSampleSize) * sampleCount;
+                                        sampleCount = 0;
+                                    }
                                     for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                         if (trunFlags & 0x000100) { // sample-duration present
                                             totalDuration += reader.readUInt32BE();
-- 
2.43.0


From 74eaaac650d05a9f5023ac294e38522bb1615475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:18 +0000
Subject: [PATCH 079/118] fix: Handle compact sample sizes of MP4 tracks
 correctly

---
 mp4/mp4track.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index c39f41a..2327514 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1983,17 +1983,19 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 diag.emplace_back(DiagLevel::Critical, "The stsz atom is truncated. It stores less entries as denoted.", context);
                 actualSampleCount = static_cast<std::uint64_t>(floor(static_cast<double>(actualSampleSizeTableSize) / (0.125 * fieldSize)));
             }
-            m_sampleSizes.reserve(actualSampleCount);
+            if (fieldSize) {
+                m_sampleSizes.reserve(actualSampleCount);
+            }
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
-                for (; i <= actualSampleCount; i += 2) {
+                for (; i < actualSampleCount; i += 2) {
                     std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
+                    m_sampleSizes.push_back(val & 0x0F);
+                    m_size += (val >> 4) + (val & 0x0F);
                 }
-                if (i <= actualSampleCount + 1) {
+                if (i == actualSampleCount) {
                     m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
                 }
-- 
2.43.0


From ef16c22e41c7244d855d4f3834dc3542cac97c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:55 +0000
Subject: [PATCH 080/118] fix: avoid reading beyond the end of the file when
 looking for the next Ogg page

---
 ogg/oggiterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index aec51a5..f10970a 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -249,7 +249,7 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    for (std::uint64_t bytesAvailable = streamSize() - offset; bytesAvailable >= 27; --bytesAvailable) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
-- 
2.43.0


From 672c4d3d2688b1208f60b3d1fcd0d997e6202a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:55 +0000
Subject: [PATCH 081/118] fix: avoid endless loop and wrong page indexes when
 applying changes to Ogg files with gaps

---
 ogg/oggcontainer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index c89f98e..622ff21 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -525,7 +525,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
             if (lastPage && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
+                m_iterator.pages().resize(nextPageIndex); // drop all further pages after the last consecutively parsed one
                 if (m_iterator.resyncAt(nextPageOffset)) {
                     // try again at the page we've just found
                     const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
@@ -670,7 +670,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         } else if (!isLastPage) {
                             // set absolute granule position to zero as only header packets finish on this page
                             writer().writeInt64LE(0);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
+                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex && currentParams->lastPageIndex < m_iterator.pages().size()) {
                             // ensure the written absolute granule position matches the one from the last page of the existing file
                             backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
                             copyHelper.copy(backupStream, stream(), 8);
-- 
2.43.0


From 5f8f9a788f3190fd88408c19de4a5c23dc665177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:08 +0000
Subject: [PATCH 082/118] fix: avoid overwriting data when updating Matroska
 files with unknown top-level elements or multiple segments in place

---
 matroska/matroskacontainer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index cdbf3f5..65e57d1 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1065,6 +1065,18 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     } else if (firstClusterFound) {
                         currentTagPos = ElementPosition::AfterData;
                     }
+                    // rewriting is required if there are multiple segments (which might need to be moved)
+                    if (lastSegmentIndex > 0) {
+                        rewriteRequired = true;
+                    }
+                    break;
+                case EbmlIds::Header:
+                case EbmlIds::Void:
+                case EbmlIds::Crc32:
+                    break;
+                default:
+                    // rewriting is required as unknown top-level elements can not be copied within the same file
+                    rewriteRequired = true;
                 }
             }
 
-- 
2.43.0


From 1aea77c32fc613bdc5b929de677176ef1b59f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 083/118] fix: avoid null pointer dereference when applying
 changes to MP4 files without media data

---
 mp4/mp4container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index f9cc427..24d12e8 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -491,7 +491,7 @@ calculatePadding:
         newPadding = (fileInfo().preferredPadding() && fileInfo().preferredPadding() < 8 ? 8 : fileInfo().preferredPadding());
     } else {
         // check whether there is sufficiant space before the next atom
-        if (!(rewriteRequired = firstMediaDataAtom && currentOffset > firstMediaDataAtom->startOffset())) {
+        if (!(rewriteRequired = !firstMediaDataAtom || currentOffset > firstMediaDataAtom->startOffset())) {
             // there is sufficiant space
             // -> check whether the padding is not between 1 and 7 bytes because that size range cannot be padded
             // -> check whether the padding matches specifications
-- 
2.43.0


From f888b7825c1d39117c7f32b29a518d2385f0bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:56 +0000
Subject: [PATCH 084/118] fix: avoid invalid access when rewriting Matroska
 files with multiple segments

---
 matroska/matroskacontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 65e57d1..82d6af6 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1425,7 +1425,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     segment.sizeDenotationLength = 0;
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    if (!segmentIndex && rewriteRequired && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         segment.newPadding = newPadding = fileInfo().preferredPadding() != 1 ? fileInfo().preferredPadding() : 2;
                         segment.totalDataSize += segment.newPadding;
-- 
2.43.0


From 951d34e573f30522ee471aa84eff5bc8a763eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 085/118] fix: avoid damaging MP4 files when applying changes
 if a track could not be parsed

---
 mp4/mp4container.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 24d12e8..bca213e 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -280,6 +280,15 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     // -> media size of original file
     auto mediaSize = std::uint64_t();
 
+    // ensure all tracks have been parsed correctly as it would not be possible to make their atoms otherwise
+    for (const auto &track : tracks()) {
+        if (!track->isHeaderValid()) {
+            diag.emplace_back(DiagLevel::Critical,
+                argsToString("Unable to apply changes because the track with the ID ", track->id(), " could not be parsed correctly."), context);
+            throw InvalidDataException();
+        }
+    }
+
     // find relevant atoms in original file and determine media size
     Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom /*, *userDataAtom*/;
     Mp4Atom *level0Atom, *level1Atom, *level2Atom, *lastAtomToBeWritten = nullptr;
-- 
2.43.0


From df26d7485e57a2b03485014e358d8d914032b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:40 +0000
Subject: [PATCH 086/118] fix: avoid dropping the movie atom when rewriting MP4
 files without media data

---
 mp4/mp4container.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index bca213e..b5396ac 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -351,11 +351,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         // -> since tags are nested in the movie atom its position is relevant here
         if (firstMediaDataAtom) {
             currentTagPos = firstMediaDataAtom->startOffset() < movieAtom->startOffset() ? ElementPosition::AfterData : ElementPosition::BeforeData;
-            if (newTagPos == ElementPosition::Keep) {
-                newTagPos = currentTagPos;
-            }
         } else {
-            currentTagPos = ElementPosition::Keep;
+            currentTagPos = ElementPosition::BeforeData;
+        }
+        if (newTagPos == ElementPosition::Keep) {
+            newTagPos = currentTagPos;
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
-- 
2.43.0


From 6ad82feec328b4f6beeac4730b76f0f09f8952bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:32 +0000
Subject: [PATCH 087/118] fix: check whether file element exceeds the file
 before allocating buffer for it

---
 genericfileelement.h       | 4 ++++
 matroska/matroskatrack.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index 9123f0c..124550a 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -903,9 +903,13 @@ void GenericFileElement<ImplementationType>::copyEntirely(TargetStream &targetSt
 /*!
  * \brief Buffers the element (header and data).
  * \remarks The element must have been parsed.
+ * \throws Throws TruncatedDataException if the element exceeds the file.
  */
 template <class ImplementationType> void GenericFileElement<ImplementationType>::makeBuffer()
 {
+    if (startOffset() > container().fileInfo().size() || totalSize() > container().fileInfo().size() - startOffset()) {
+        throw TruncatedDataException();
+    }
     m_buffer = std::make_unique<char[]>(totalSize());
     container().stream().seekg(static_cast<std::streamoff>(startOffset()));
     container().stream().read(m_buffer.get(), static_cast<std::streamsize>(totalSize()));
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index e441215..710d00a 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -6,6 +6,7 @@
 
 #include "../avi/bitmapinfoheader.h"
 
+#include "../mediafileinfo.h"
 #include "../wav/waveaudiostream.h"
 
 #include "../avc/avcconfiguration.h"
-- 
2.43.0


From 4e3420f945ee3e55445c3a177d844175128e62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:32 +0000
Subject: [PATCH 088/118] fix: avoid dropping Matroska tracks if their header
 can not be made

---
 matroska/matroskacontainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 82d6af6..3197b7f 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1034,6 +1034,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     trackHeaderElementsSize += maker.requiredSize();
                 }
             } catch (const Failure &) {
+                diag.emplace_back(DiagLevel::Critical, argsToString("Unable to make header of track with the ID ", track->id(), '.'), context);
+                throw;
             }
         }
         trackHeaderSize
-- 
2.43.0


From ba9bb39d36e19dcde0f42610a4fc976e1d6c8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:31 +0000
Subject: [PATCH 089/118] fix: preserve ratings of zero in Matroska tags and
 Vorbis comments

---
 matroska/matroskatagfield.cpp | 4 +++-
 vorbis/vorbiscommentfield.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index b4c3775..250b26c 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -5,6 +5,7 @@
 
 #include "../exceptions.h"
 
+#include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binarywriter.h>
 
 #include <memory>
@@ -218,7 +219,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
 {
     try {
         if (m_field.value().type() == TagDataType::Popularity) {
-            m_stringValue = m_field.value().toScaledPopularity(TagType::MatroskaTag).toString();
+            const auto popularity = m_field.value().toScaledPopularity(TagType::MatroskaTag);
+            m_stringValue = popularity.isEmpty() ? numberToString(popularity.rating) : popularity.toString(); // zero is a valid rating
         } else {
             m_stringValue = m_field.value().toString(TagTextEncoding::Utf8);
         }
diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..4ec6680 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -219,7 +219,8 @@ bool VorbisCommentField::make(BinaryWriter &writer, VorbisCommentFlags flags, Di
                 throw Failure();
             }
         } else if (value().type() == TagDataType::Popularity) {
-            valueString = value().toScaledPopularity(TagType::VorbisComment).toString();
+            const auto popularity = value().toScaledPopularity(TagType::VorbisComment);
+            valueString = popularity.isEmpty() ? numberToString(popularity.rating) : popularity.toString(); // zero is a valid rating
         } else {
             // make normal string value
             valueString = value().toString(TagTextEncoding::Utf8);
-- 
2.43.0


From 242ebd6476ea173f0afbc526cc1a76021dcd116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:29 +0000
Subject: [PATCH 090/118] fix: allow cancelling when parsing headers of Ogg
 streams

---
 ogg/oggcontainer.cpp | 2 ++
 ogg/oggstream.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 622ff21..d22d020 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -374,6 +374,8 @@ void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
             if (stream->duration() > m_duration) {
                 m_duration = stream->duration();
             }
+        } catch (const OperationAbortedException &) {
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse stream at ", stream->startOffset(), '.'), context);
         }
diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..761a36d 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -11,6 +11,7 @@
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
 #include "../mediaformat.h"
+#include "../progressfeedback.h"
 
 #include <c++utilities/chrono/timespan.h>
 
@@ -48,8 +49,6 @@ OggStream::~OggStream()
 
 void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
-    CPP_UTILITIES_UNUSED(progress)
-
     static const string context("parsing Ogg page header");
 
     // read basic information from first page
@@ -64,6 +63,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // iterate through segments using OggIterator
     for (bool hasIdentificationHeader = false, hasCommentHeader = false; iterator && (!hasIdentificationHeader || !hasCommentHeader); ++iterator) {
+        progress.stopIfAborted();
         const std::uint32_t currentSize = iterator.currentSegmentSize();
         if (currentSize >= 8) {
             // determine stream format
-- 
2.43.0


From 29086c78255b8cdb2ed98a9ea6967d26771d24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:48 +0000
Subject: [PATCH 091/118] fix: avoid dropping first character of MP4 handler
 names

The first character of a null terminated handler name might match the
remaining size by coincidence. It must not be treated as size prefix then.
---
 mp4/mp4track.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 2327514..3c7f364 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1726,7 +1726,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     // -> name
     m_istream->seekg(12, ios_base::cur); // skip reserved bytes
-    if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
+    auto sizePrefixed = static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1;
+    if (sizePrefixed && tmp) {
+        // ensure it is not a null terminated string where the first character just happens to match the size
+        m_istream->seekg(tmp, ios_base::cur);
+        sizePrefixed = m_istream->peek() != 0;
+        m_istream->seekg(-static_cast<std::streamoff>(tmp), ios_base::cur);
+    }
+    if (sizePrefixed) {
         // assume size prefixed string (seems to appear in QuickTime files)
         m_istream->seekg(1, ios_base::cur);
         m_name = reader.readString(tmp);
-- 
2.43.0


From c82eb43fa7e834507756110c279bebd7f02ba4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:45 +0000
Subject: [PATCH 092/118] fix: parse TDAT/TIME frames of ID3v2 tags encoded in
 UTF-16

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 757ea77..10db8c5 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -492,7 +492,7 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     if (const auto &v = value(Id3v2FrameIds::lDate)) {
         expr.parts |= DateTimeParts::Day | DateTimeParts::Month;
         try {
-            auto str = v.toString();
+            auto str = v.toString(TagTextEncoding::Utf8);
             if (str.size() != 4) {
                 throw ConversionException("format is not DDMM");
             }
@@ -505,7 +505,7 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     if (const auto &v = value(Id3v2FrameIds::lTime)) {
         expr.parts |= DateTimeParts::Hour | DateTimeParts::Minute;
         try {
-            auto str = v.toString();
+            auto str = v.toString(TagTextEncoding::Utf8);
             if (str.size() != 4) {
                 throw ConversionException("format is not HHMM");
             }
-- 
2.43.0


From fd2ce983256d5331477e257c3a44344258db7677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:45 +0000
Subject: [PATCH 093/118] fix: preserve track numbers above 127 in ID3v1 tags

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 68d4af4..ba55e6a 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
-- 
2.43.0


From 56df7944c772da7aaa468ab9ca3583fc72793b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:45 +0000
Subject: [PATCH 094/118] fix: preserve unknown genre numbers in ID3v1 tags

---
 id3/id3v1tag.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index ba55e6a..d34b7a6 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -127,7 +127,9 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
 
     // write genre
     try {
-        const auto genreIndex(m_genre.toStandardGenreIndex());
+        // note: An index which is not a known standard genre is preserved as-is.
+        const auto genreIndex(
+            !m_genre.isEmpty() && m_genre.type() == TagDataType::StandardGenreIndex ? m_genre.toInteger() : m_genre.toStandardGenreIndex());
         if (genreIndex < 0x00 || genreIndex > 0xFF) {
             throw ConversionException();
         }
-- 
2.43.0


From fe294002a4d0617441884685403d013969ed8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:45 +0000
Subject: [PATCH 095/118] fix: preserve recording dates when writing ID3v2.3
 tags with a recording date

---
 id3/id3v2tag.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 10db8c5..805a7e1 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -812,7 +812,10 @@ void Id3v2Tag::prepareRecordDataForMaking(const std::string &diagContext, Diagno
         const auto dateTimeExpr = recordingTime.toDateTimeExpression();
         const auto &asDateTime = dateTimeExpr.value;
         // -> remove any existing old fields to avoid any leftovers
-        removeOldRecordDateRelatedFields();
+        //    note: The recording dates (free-form text complementing the other fields) are not represented by lRecordingTime.
+        for (const auto field : { Id3v2FrameIds::lYear, Id3v2FrameIds::lDate, Id3v2FrameIds::lTime }) {
+            fields().erase(field);
+        }
         // -> assign old fields from parsed DateTime
         std::stringstream year, date, time;
         if (dateTimeExpr.parts & DateTimeParts::Year) {
-- 
2.43.0


From f1150a1e9931ad46025a73306e247083ef411d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:17 +0000
Subject: [PATCH 096/118] fix: preserve composer and synchronized lyrics when
 converting between ID3v2.2 and newer versions

---
 id3/id3v2frameids.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..283f852 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -105,6 +105,10 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sUserDefinedURL;
     case lSubtitleOrDescriptionRefinement:
         return sSubtitleOrDescriptionRefinement;
+    case lComposer:
+        return sComposer;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
     default:
         return 0;
     }
@@ -195,6 +199,10 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lUserDefinedURL;
     case sSubtitleOrDescriptionRefinement:
         return lSubtitleOrDescriptionRefinement;
+    case sComposer:
+        return lComposer;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
     default:
         return 0;
     }
-- 
2.43.0


From f1a75ae0e2939a93a50a61617661378fd2e36292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:37 +0000
Subject: [PATCH 097/118] fix: treat absent genre of ID3v1 tags as empty so it
 is not transferred to other tags

---
 id3/id3v1tag.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d34b7a6..13fd9ce 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -1,4 +1,5 @@
 #include "./id3v1tag.h"
+#include "./id3genres.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -80,7 +81,9 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     if (is11) {
         m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
-    m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
+    if (const auto genreIndex = static_cast<int>(*reinterpret_cast<unsigned char *>(buffer + 127)); !Id3Genres::isEmptyGenre(genreIndex)) {
+        m_genre.assignStandardGenreIndex(genreIndex);
+    }
 }
 
 /*!
-- 
2.43.0


From 7ac53dc06f8a45c3a2412e99fa80fc01a508c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:27 +0000
Subject: [PATCH 098/118] fix: handle unsynchronised ID3v2 tags and frames

---
 id3/id3v2frame.cpp | 34 +++++++++++++++++++++++++++-------
 id3/id3v2frame.h   |  1 +
 id3/id3v2tag.cpp   | 33 ++++++++++++++++++++++++++++-----
 3 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index e57e355..b0ef318 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -249,15 +249,21 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     // parse the data
     unique_ptr<char[]> buffer;
 
-    // -> decompress data if compressed; otherwise just read it
+    // -> read data and reverse the unsynchronisation scheme
+    buffer = make_unique<char[]>(m_dataSize);
+    reader.read(buffer.get(), m_dataSize);
+    if (isUnsynchronized()) {
+        m_dataSize = static_cast<std::uint32_t>(reverseUnsynchronisation(buffer.get(), m_dataSize));
+    }
+
+    // -> decompress data if compressed
     if (isCompressed()) {
         if (decompressedSize / 1032u > m_dataSize) {
             // avoid allocating an excessive amount of memory for an obviously bogus size
             diag.emplace_back(DiagLevel::Critical, "The decompressed size exceeds what the compressed data can possibly contain.", context);
             throw InvalidDataException();
         }
-        const auto bufferCompressed = make_unique<char[]>(m_dataSize);
-        reader.read(bufferCompressed.get(), m_dataSize);
+        const auto bufferCompressed = std::move(buffer);
         buffer = make_unique<char[]>(decompressedSize);
         switch (
             uncompress(reinterpret_cast<Bytef *>(buffer.get()), &decompressedSize, reinterpret_cast<Bytef *>(bufferCompressed.get()), m_dataSize)) {
@@ -285,9 +291,6 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             throw InvalidDataException();
         }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
-    } else {
-        buffer = make_unique<char[]>(m_dataSize);
-        reader.read(buffer.get(), m_dataSize);
     }
 
     const auto isTextFrame = Id3v2FrameIds::isTextFrame(id());
@@ -837,7 +840,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
     const auto parsedFlagsAreId3v24 = m_frame.parsedVersion() >= 4;
     if (version >= 4) {
         m_flag = static_cast<std::uint16_t>((parsedFlagsAreId3v24 ? (m_flag & 0x7000u) : ((m_flag & 0xE000u) >> 1))
-            | (m_frame.hasGroupInformation() ? 0x40u : 0u) | (m_frame.isCompressed() ? 0x9u : 0u) | (m_frame.isUnsynchronized() ? 0x2u : 0u));
+            | (m_frame.hasGroupInformation() ? 0x40u : 0u) | (m_frame.isCompressed() ? 0x9u : 0u)); // note: The unsynchronisation scheme is not applied when making frames.
     } else {
         m_flag = static_cast<std::uint16_t>((parsedFlagsAreId3v24 ? ((m_flag & 0x7000u) << 1) : (m_flag & 0xE000u))
             | (m_frame.hasGroupInformation() ? 0x20u : 0u) | (m_frame.isCompressed() ? 0x80u : 0u));
@@ -897,6 +900,23 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
     writer.write(m_data.get(), m_dataSize);
 }
 
+/*!
+ * \brief Reverses the unsynchronisation scheme within the specified \a buffer (in-place).
+ * \returns Returns the number of resulting bytes (which is at most \a bufferSize).
+ */
+std::size_t Id3v2Frame::reverseUnsynchronisation(char *buffer, std::size_t bufferSize)
+{
+    auto newSize = std::size_t();
+    for (auto i = std::size_t(); i != bufferSize; ++i) {
+        const auto isPadded = buffer[i] == '\xFF' && i + 1 != bufferSize && buffer[i + 1] == '\0';
+        buffer[newSize++] = buffer[i];
+        if (isPadded) {
+            ++i;
+        }
+    }
+    return newSize;
+}
+
 /*!
  * \brief Returns the text encoding for the specified \a textEncodingByte.
  *
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 5c23b45..7d9b009 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -143,6 +143,7 @@ public:
 
     static IdentifierType fieldIdFromString(std::string_view idString);
     static std::string fieldIdToString(IdentifierType id);
+    static std::size_t reverseUnsynchronisation(char *buffer, std::size_t bufferSize);
 
 private:
     void internallyClearValue();
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 805a7e1..9bdcd99 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -9,6 +9,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 
 #include <iostream>
+#include <sstream>
+#include <string>
 
 using namespace std;
 using namespace CppUtilities;
@@ -608,11 +610,31 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
+    // reverse the unsynchronisation scheme if applied to the tag as a whole
+    // note: In ID3v2.4 it is applied to individual frames instead and taken care of when parsing the frames.
+    auto *frameStream = &stream;
+    auto synchronizedFrames = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
+    if (isUnsynchronisationUsed() && majorVersion < 4) {
+        auto data = std::string(bytesRemaining, '\0');
+        stream.read(data.data(), static_cast<std::streamsize>(data.size()));
+        data.resize(Id3v2Frame::reverseUnsynchronisation(data.data(), data.size()));
+        bytesRemaining = static_cast<std::uint32_t>(data.size());
+        synchronizedFrames.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+        synchronizedFrames.str(std::move(data));
+        reader.setStream(frameStream = &synchronizedFrames);
+    }
+
     // read frames
-    auto pos = BasicFileInfo::currentReadOffset(stream);
+    auto pos = BasicFileInfo::currentReadOffset(*frameStream);
+    const auto frameHeaderSize = majorVersion < 3 ? 6u : 10u;
     while (bytesRemaining) {
+        // treat remaining bytes which cannot contain a frame as padding
+        if (bytesRemaining < frameHeaderSize) {
+            m_paddingSize = bytesRemaining;
+            break;
+        }
         // seek to next frame
-        stream.seekg(static_cast<streamoff>(pos));
+        frameStream->seekg(static_cast<streamoff>(pos));
         // parse frame
         Id3v2Frame frame;
         try {
@@ -623,7 +645,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             fields().emplace(frame.id(), std::move(frame));
         } catch (const NoDataFoundException &) {
             if (frame.hasPaddingReached()) {
-                m_paddingSize = startOffset + m_size - pos;
+                m_paddingSize = frameStream == &stream ? startOffset + m_size - pos : bytesRemaining;
                 break;
             }
         } catch (const Failure &) {
@@ -647,6 +669,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
+    reader.setStream(&stream);
     if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
         stream.seekg(static_cast<streamoff>(startOffset + m_size));
@@ -907,8 +930,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header, compression or footer bit set (as those are not written)
-    writer.writeByte(m_tag.flags() & 0xAF);
+    // -> flags, but without unsynchronisation, extended header, compression or footer bit set (as those are not applied/written)
+    writer.writeByte(m_tag.flags() & 0x2F);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From dd14fcaece9b2ce661f156e8f380d61b3435087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:16 +0000
Subject: [PATCH 099/118] fix: preserve full length of comments in ID3v1.0 tags

---
 id3/id3v1tag.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 13fd9ce..8806f49 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -107,7 +107,9 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     writeValue(m_artist, 30, buffer, stream, diag);
     writeValue(m_album, 30, buffer, stream, diag);
     writeValue(m_year, 4, buffer, stream, diag);
-    writeValue(m_comment, 28, buffer, stream, diag);
+    // -> use the two bytes otherwise required for the track (ID3v1.1) for the comment if there is no track to be written
+    const auto isTrackPosAssigned = !m_trackPos.isEmpty();
+    writeValue(m_comment, isTrackPosAssigned ? 28 : 30, buffer, stream, diag);
 
     // set "default" values for numeric fields
     buffer[0] = 0x0; // empty byte
@@ -115,7 +117,7 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     buffer[2] = 0x0; // genre
 
     // write track
-    if (!m_trackPos.isEmpty()) {
+    if (isTrackPosAssigned) {
         try {
             const auto position(m_trackPos.toPositionInSet().position());
             if (position < 0x00 || position > 0xFF) {
@@ -142,7 +144,11 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
             "Genre field can not be set because given value can not be converted to a standard genre number supported by ID3v1.", context);
     }
 
-    stream.write(buffer, 3);
+    if (isTrackPosAssigned) {
+        stream.write(buffer, 3);
+    } else {
+        stream.write(buffer + 2, 1);
+    }
     stream.flush();
 }
 
-- 
2.43.0


From 52058098e4ebc08a57db7a87dd11ab187c724e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:22 +0000
Subject: [PATCH 100/118] fix: return tags of WebM files via
 MediaFileInfo::matroskaTags()

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index d2fe8fe..cce304c 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1308,7 +1308,7 @@ Mp4Tag *MediaFileInfo::mp4Tag() const
 const vector<unique_ptr<MatroskaTag>> &MediaFileInfo::matroskaTags() const
 {
     // matroska files might contain multiple tags (targeting different scopes)
-    if (m_containerFormat == ContainerFormat::Matroska && m_container) {
+    if ((m_containerFormat == ContainerFormat::Matroska || m_containerFormat == ContainerFormat::Webm) && m_container) {
         return static_cast<MatroskaContainer *>(m_container.get())->tags();
     } else {
         static const std::vector<std::unique_ptr<MatroskaTag>> empty;
-- 
2.43.0


From 0725877abce04e8793aa50853bde5f30ba7b18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:22 +0000
Subject: [PATCH 101/118] fix: consider extended fields in Mp4Tag::hasField()

---
 mp4/mp4tag.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 39ec386..7957802 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -379,7 +379,13 @@ bool Mp4Tag::hasField(KnownField field) const
     case KnownField::Genre:
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
     default:
-        return FieldMapBasedTag<Mp4Tag>::hasField(field);
+        if (FieldMapBasedTag<Mp4Tag>::hasField(field)) {
+            return true;
+        }
+        if (const auto extendedId = Mp4ExtendedFieldId(field)) {
+            return !this->value(extendedId.mean, extendedId.name).isEmpty();
+        }
+        return false;
     }
 }
 
-- 
2.43.0


From afef84caefb15930c8b902ae1b63b9b8080fb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:22 +0000
Subject: [PATCH 102/118] fix: consider pre-defined genre in Mp4Tag::values()

---
 mp4/mp4tag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 7957802..2b5ef76 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -85,6 +85,9 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
+    if (field == KnownField::Genre && values.empty()) {
+        values = FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
-- 
2.43.0


From 5772f84f7ff3b1a6b4ddcf44dc40a0ea189cae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:40 +0000
Subject: [PATCH 103/118] fix: handle encoding of picture descriptions in
 Vorbis comments and FLAC files

---
 flac/flacmetadata.cpp | 18 +++++++++++++++++-
 flac/flacmetadata.h   |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..2327168 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -4,6 +4,7 @@
 #include "../tagvalue.h"
 
 #include <c++utilities/conversion/binaryconversion.h>
+#include <c++utilities/conversion/conversionexception.h>
 #include <c++utilities/io/binaryreader.h>
 #include <c++utilities/io/binarywriter.h>
 #include <c++utilities/io/bitreader.h>
@@ -90,7 +91,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     m_value.setMimeType(reader.readString(size));
     size = reader.readUInt32BE();
     CHECK_MAX_SIZE(size);
-    m_value.setDescription(reader.readString(size));
+    m_value.setDescription(reader.readString(size), TagTextEncoding::Utf8);
     // skip width, height, color depth, number of colors used
     inputStream.seekg(4 * 4, ios_base::cur);
     size = reader.readUInt32BE();
@@ -104,6 +105,19 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     }
 }
 
+/*!
+ * \brief Converts the description to UTF-8 which is the encoding specified for "METADATA_BLOCK_PICTURE".
+ * \throws Throws an InvalidDataException() if the description can not be converted.
+ */
+void FlacMetaDataBlockPicture::ensureDescriptionIsUtf8() const
+{
+    try {
+        m_value.convertDescriptionEncoding(TagTextEncoding::Utf8);
+    } catch (const ConversionException &) {
+        throw InvalidDataException();
+    }
+}
+
 /*!
  * \brief Returns the number of bytes make() will write.
  * \remarks Any changes to the object will invalidate this value.
@@ -111,6 +125,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
  */
 std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
 {
+    ensureDescriptionIsUtf8();
     const auto requiredSize(32 + m_value.mimeType().size() + m_value.description().size() + m_value.dataSize());
     if (requiredSize > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
@@ -124,6 +139,7 @@ std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
  */
 void FlacMetaDataBlockPicture::make(ostream &outputStream)
 {
+    ensureDescriptionIsUtf8();
     if (m_value.mimeType().size() > numeric_limits<std::uint32_t>::max() || m_value.description().size() > numeric_limits<std::uint32_t>::max()
         || m_value.dataSize() > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
diff --git a/flac/flacmetadata.h b/flac/flacmetadata.h
index b1f64a3..e9d3fb9 100644
--- a/flac/flacmetadata.h
+++ b/flac/flacmetadata.h
@@ -258,6 +258,8 @@ public:
     TagValue &value();
 
 private:
+    void ensureDescriptionIsUtf8() const;
+
     std::uint32_t m_pictureType;
     TagValue &m_value;
 };
-- 
2.43.0


From 7ea52fe40ced7d65a578f4c056c853bbe7bedfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 104/118] fix: assume correct default for "TagDefault" elements
 of Matroska tags

---
 matroska/matroskatagfield.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 250b26c..584625c 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -49,6 +49,7 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
 {
     string context("parsing Matroska tag field");
     simpleTagElement.parse(diag);
+    setDefault(true); // the default according to the specification
     bool tagDefaultFound = false, tagLanguageFound = false, tagLanguageIETFFound = false;
     for (EbmlElement *child = simpleTagElement.firstChild(); child; child = child->nextSibling()) {
         try {
-- 
2.43.0


From 09ba6f8ff23817f09081877fd938bf73d7daf764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:52 +0000
Subject: [PATCH 105/118] fix: avoid reading beyond empty codec configurations

---
 avc/avcinfo.cpp  | 6 ++++++
 mp4/mp4track.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 6adac0f..3d25482 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -27,6 +27,9 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     if ((maxSize < minSize) || (size = reader.readUInt16BE()) > (maxSize - minSize)) {
         throw TruncatedDataException();
     }
+    if (!size) {
+        throw TruncatedDataException(); // BitReader assumes a non-empty buffer
+    }
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
@@ -224,6 +227,9 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     if ((maxSize < minSize) || (size = reader.readUInt16BE()) > (maxSize - minSize)) {
         throw TruncatedDataException();
     }
+    if (!size) {
+        throw TruncatedDataException(); // BitReader assumes a non-empty buffer
+    }
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 3c7f364..57abf9b 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -712,12 +712,17 @@ unique_ptr<Mpeg4AudioSpecificConfig> Mp4Track::parseAudioSpecificConfig(
 {
     static const string context("parsing MPEG-4 audio specific config from elementary stream descriptor");
     using namespace Mpeg4AudioObjectIds;
+    auto audioCfg = make_unique<Mpeg4AudioSpecificConfig>();
+    if (!size) {
+        // BitReader assumes a non-empty buffer
+        diag.emplace_back(DiagLevel::Critical, "Audio specific configuration is truncated.", context);
+        return audioCfg;
+    }
     // read config into buffer and construct BitReader for bitwise reading
     stream.seekg(static_cast<streamoff>(startOffset));
     auto buff = make_unique<char[]>(size);
     stream.read(buff.get(), static_cast<streamoff>(size));
     BitReader bitReader(buff.get(), size);
-    auto audioCfg = make_unique<Mpeg4AudioSpecificConfig>();
     try {
         // read audio object type
         auto getAudioObjectType = [&bitReader] {
-- 
2.43.0


From 281f81c7f94d9e9e0f23375e20e2a77c4483be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:33 +0000
Subject: [PATCH 106/118] fix: initialize chunk size of tracks

The sample count of a WAVE file without (complete) format segment was
computed using an uninitialized value.
---
 abstracttrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstracttrack.cpp b/abstracttrack.cpp
index 800877c..e2af24a 100644
--- a/abstracttrack.cpp
+++ b/abstracttrack.cpp
@@ -52,6 +52,7 @@ AbstractTrack::AbstractTrack(istream &inputStream, ostream &outputStream, std::u
     , m_channelCount(0)
     , m_channelConfig(0)
     , m_extensionChannelConfig(0)
+    , m_chunkSize(0)
     , m_sampleCount(0)
     , m_quality(0)
     , m_depth(0)
-- 
2.43.0


From 32a9b187d4605fdd951c8b532d9df21cf899d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:53 +0000
Subject: [PATCH 107/118] fix: allow updating Matroska files specified as
 "file:/"-URL in place

All other code paths (and formats) strip the prefix before opening or
truncating the file.
---
 matroska/matroskacontainer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 3197b7f..e396187 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1621,7 +1621,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
@@ -1951,14 +1951,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
-                std::filesystem::resize_file(makeNativePath(fileInfo().path()), newSize, ec);
+                std::filesystem::resize_file(makeNativePath(BasicFileInfo::pathForOpen(fileInfo().path())), newSize, ec);
                 if (!ec) {
                     fileInfo().reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
                 }
                 // -> reopen the stream again
-                outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+                outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             } else {
                 // file is longer after the modification -> just report new size
                 fileInfo().reportSizeChanged(newSize);
-- 
2.43.0


From 5135aecac789f7d1c0844cfd360437a1befc2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:46 +0000
Subject: [PATCH 108/118] fix: keep data of attachments if setting the file
 fails

The documentation states that the attachment remains unchanged if an
exception is thrown but the data was dropped so the attachment got lost on
the next write.
---
 abstractattachment.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abstractattachment.cpp b/abstractattachment.cpp
index ad6c9ff..1069ecb 100644
--- a/abstractattachment.cpp
+++ b/abstractattachment.cpp
@@ -190,7 +190,6 @@ void AbstractAttachment::clear()
  */
 void AbstractAttachment::setFile(string_view path, Diagnostics &diag, AbortableProgressFeedback &progress)
 {
-    m_data.reset();
     auto file = make_unique<FileDataBlock>(path, diag, progress);
     const auto fileName = file->fileInfo()->fileName();
     if (!fileName.empty()) {
-- 
2.43.0


From b0180f88b78c7f4452f7823631282a6432cae238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:04 +0000
Subject: [PATCH 109/118] fix: write MP4 track/disk positions exceeding 16-bit
 integers correctly

A position exceeding 65535 or being negative was silently stored as different
value because only the lower 16 bits are part of the position. A total
between 32768 and 65535 is valid (and accepted when parsing) but made the
field being dropped when applying changes.
---
 mp4/mp4tagfield.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index accf3fe..e7a6b4b 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -714,14 +714,15 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 case Mp4TagAtomIds::TrackPosition:
                 case Mp4TagAtomIds::DiskPosition: {
                     PositionInSet pos = value.toPositionInSet();
-                    m_writer.writeInt32BE(pos.position());
-                    if (pos.total() <= numeric_limits<std::int16_t>::max()) {
-                        m_writer.writeInt16BE(static_cast<std::int16_t>(pos.total()));
-                    } else {
+                    // note: The position and the total are stored as 16-bit unsigned integers.
+                    static constexpr auto max = std::numeric_limits<std::uint16_t>::max();
+                    if (pos.position() < 0 || pos.position() > max || pos.total() < 0 || pos.total() > max) {
                         throw ConversionException(
                             "Integer can not be assigned to the field with the id \"" % interpretIntegerAsString<std::uint32_t>(m_field.id())
-                            + "\" because it is to big.");
+                            + "\" because it is too big or negative.");
                     }
+                    m_writer.writeInt32BE(pos.position());
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.total()));
                     m_writer.writeUInt16BE(0);
                     break;
                 }
-- 
2.43.0


From 632e33b1f4d556f8bb78189c2debf5915325d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:33 +0000
Subject: [PATCH 110/118] fix: map genre of Matroska tags and language of
 Vorbis comments back to known field

The reverse mapping was missing so a "genre" of a Matroska tag written in
lower case was not normalized like the other known fields (and hence not
considered the genre).
---
 matroska/matroskatag.cpp | 1 +
 vorbis/vorbiscomment.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..d262105 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 8f23bc2..65c0825 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -152,6 +152,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { license(), KnownField::License },
          { director(), KnownField::Director },
          { isrc(), KnownField::ISRC },
+         { language(), KnownField::Language },
          { rating(), KnownField::Rating },
          { bpm(), KnownField::Bpm },
          { publisher(), KnownField::Publisher },
-- 
2.43.0


From a12c5be351b62bbbd97b45ddfa0c97a26a2f870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:27 +0000
Subject: [PATCH 111/118] fix: insert values of all known fields from other
 tags

---
 tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..07619f8 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,7 +89,7 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
+    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(lastKnownField); i <= last; ++i) {
         auto field = static_cast<KnownField>(i);
         const TagValue &ownValue = value(field);
         if (overwrite || ownValue.isEmpty()) {
-- 
2.43.0


From eadba698fdc4d8bdb7712c89ff5076b43e8f4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:27 +0000
Subject: [PATCH 112/118] fix: treat zero track number in ID3v1 tag as absent

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 8806f49..ca88e4a 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,8 +78,8 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
         m_version = "1.0";
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
-    if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
+    if (const auto trackPos = static_cast<int>(*reinterpret_cast<unsigned char *>(buffer + 126)); is11 && trackPos) {
+        m_trackPos.assignPosition(PositionInSet(trackPos, 0));
     }
     if (const auto genreIndex = static_cast<int>(*reinterpret_cast<unsigned char *>(buffer + 127)); !Id3Genres::isEmptyGenre(genreIndex)) {
         m_genre.assignStandardGenreIndex(genreIndex);
-- 
2.43.0


From 4f046090ea1e1ff34c202aed7a22ceba31e053bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:37 +0000
Subject: [PATCH 113/118] fix: ensure proper encoding when transferring values
 to ID3v1 tag on removal of ID3v2 tags

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cce304c..674be0b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -709,6 +709,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
             for (const auto &tag : id3v2Tags()) {
                 id3v1Tag()->insertValues(*tag, false);
             }
+            // ID3v1 does not support all text encodings which might be used in ID3v2
+            id3v1Tag()->ensureTextValuesAreProperlyEncoded();
         }
         removeAllId3v2Tags();
     } else if (!(flags & TagCreationFlags::KeepExistingId3v2Version)) {
-- 
2.43.0


From 30a134dee100592078d6bd2fb2bc64992ded6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:37 +0000
Subject: [PATCH 114/118] fix: report cancellation when parsing chapters

---
 matroska/matroskacontainer.cpp | 5 +++++
 mediafileinfo.cpp              | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index e396187..76413b2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -757,6 +757,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -769,6 +771,9 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            m_editionEntries.clear(); // the chapters will be parsed again
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 674be0b..ef54bc4 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -536,6 +536,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
-- 
2.43.0


From 190b80cce21e367e4c7b4be08dedf93af74bd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:31 +0000
Subject: [PATCH 115/118] fix: transfer values when converting ID3v1 to ID3v2
 tags and vice versa

---
 mediafileinfo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ef54bc4..827161b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1460,7 +1460,10 @@ bool MediaFileInfo::id3v1ToId3v2()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1479,7 +1482,10 @@ bool MediaFileInfo::id3v2ToId3v1()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From 93b9715b2a259e877baffcab606ce75df8bed7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:48 +0000
Subject: [PATCH 116/118] fix: prevent exception when transferring malformed
 text to ID3v1 tag

---
 id3/id3v1tag.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index ca88e4a..669f9d5 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -279,7 +279,12 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
         case TagTextEncoding::Unspecified:
             break;
         default:
-            value->convertDataEncoding(TagTextEncoding::Utf8);
+            try {
+                value->convertDataEncoding(TagTextEncoding::Utf8);
+            } catch (const ConversionException &) {
+                // malformed text cannot be stored in the ID3v1 tag
+                value->clearDataAndMetadata();
+            }
         }
     }
 }
-- 
2.43.0


From 7d77959e5726d106ffaddf500aaec6d01ed208fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:48 +0000
Subject: [PATCH 117/118] fix: update start offset after saving files with data
 preceding the container

---
 abstractcontainer.cpp          | 4 ++--
 abstractcontainer.h            | 2 +-
 matroska/matroskacontainer.cpp | 1 +
 mp4/mp4container.cpp           | 1 +
 ogg/oggcontainer.cpp           | 3 ++-
 5 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/abstractcontainer.cpp b/abstractcontainer.cpp
index 4a23a2d..0cea886 100644
--- a/abstractcontainer.cpp
+++ b/abstractcontainer.cpp
@@ -20,7 +20,8 @@ struct AbstractContainerPrivate {
  * \brief Constructs a new container for the specified file \a stream at the specified \a startOffset.
  */
 AbstractContainer::AbstractContainer(iostream &stream, std::uint64_t startOffset)
-    : m_version(0)
+    : m_startOffset(startOffset)
+    , m_version(0)
     , m_readVersion(0)
     , m_doctypeVersion(0)
     , m_doctypeReadVersion(0)
@@ -31,7 +32,6 @@ AbstractContainer::AbstractContainer(iostream &stream, std::uint64_t startOffset
     , m_tracksAltered(false)
     , m_chaptersParsed(false)
     , m_attachmentsParsed(false)
-    , m_startOffset(startOffset)
     , m_stream(&stream)
     , m_reader(BinaryReader(m_stream))
     , m_writer(BinaryWriter(m_stream))
diff --git a/abstractcontainer.h b/abstractcontainer.h
index d693668..c943f19 100644
--- a/abstractcontainer.h
+++ b/abstractcontainer.h
@@ -102,6 +102,7 @@ protected:
     std::vector<std::string> &muxingApplications();
     std::vector<std::string> &writingApplications();
 
+    std::uint64_t m_startOffset;
     std::uint64_t m_version;
     std::uint64_t m_readVersion;
     std::string m_doctype;
@@ -123,7 +124,6 @@ protected:
 private:
     std::unique_ptr<AbstractContainerPrivate> &p();
 
-    std::uint64_t m_startOffset;
     std::iostream *m_stream;
     CppUtilities::BinaryReader m_reader;
     CppUtilities::BinaryWriter m_writer;
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 76413b2..b6560b6 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1969,6 +1969,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 fileInfo().reportSizeChanged(newSize);
             }
         }
+        m_startOffset = 0; // data preceding the container in the original file has not been written
         reset();
         try {
             parseHeader(diag, progress);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index b5396ac..2d852f0 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -893,6 +893,7 @@ calculatePadding:
             }
         }
 
+        m_startOffset = 0; // data preceding the container in the original file has not been written
         reset();
         try {
             parseTracks(diag, progress);
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index d22d020..197d90f 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -477,7 +477,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         auto lastPageNewOffset = std::uint64_t();
         auto copyHelper = CopyHelper<65307>();
         auto updatedPageOffsets = std::vector<std::uint64_t>();
-        auto nextPageOffset = std::uint64_t();
+        auto nextPageOffset = startOffset();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
 
         // define function to copy a page, possibly only updating its sequence number
@@ -748,6 +748,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         }
 
         // clear iterator
+        m_startOffset = 0; // data preceding the container in the original file has not been written
         m_iterator.clear(stream, startOffset(), fileInfo().size());
 
     } catch (...) {
-- 
2.43.0


From 3bafc8b9d81a4e278fe224398e961232e5a2e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:37 +0000
Subject: [PATCH 118/118] fix: don't access the FLAC stream in hasAnyTag()
 before it has been parsed

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 827161b..5ee7e5f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1602,7 +1602,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0

