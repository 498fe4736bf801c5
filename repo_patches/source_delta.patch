From 4021e65b91b59b1547acbf3510f8aab1006c0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 01/82] hook: worker flush period adjustable under
 MDFLIB_VERIF_HOOKS

---
 mdflib/src/writecache.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index efe4b8b..f187f1d 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -16,7 +16,24 @@
 
 using namespace std::chrono_literals;
 
+#ifdef MDFLIB_VERIF_HOOKS
+/** Verification hook. The period (ms) of the worker thread. A harness may
+ * shorten the period, so the cyclic flush is reached within a short run. */
+std::atomic<unsigned> mdflib_verif_flush_period_ms{10'000};
+#endif
+
 namespace mdf::detail {
+
+namespace {
+std::chrono::milliseconds FlushPeriod() {
+#ifdef MDFLIB_VERIF_HOOKS
+  return std::chrono::milliseconds(mdflib_verif_flush_period_ms.load());
+#else
+  return 10s;
+#endif
+}
+}  // namespace
+
 WriteCache::WriteCache(MdfWriter& writer)
 : writer_(writer) {
 
@@ -102,7 +119,7 @@ void WriteCache::StopWorkThread() {
 void WriteCache::WorkThread() {
   do {
     std::unique_lock lock(locker_);
-    sample_event_.wait_for(lock, 10s,
+    sample_event_.wait_for(lock, FlushPeriod(),
                            [&]() -> bool { return stop_thread_.load(); });
     if (stop_thread_) {
       break;
-- 
2.43.0


From b838ab712323af6f1966c4b24d97735d41861b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:51 +0000
Subject: [PATCH 02/82] fix: CANopen two digit year covers 1984..2083

---
 mdflib/src/mdfhelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 963cf89..4c1a95e 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -154,7 +154,8 @@ uint64_t MdfHelper::CanOpenDateArrayToNs(const std::vector<uint8_t> &buffer) {
   time.tm_hour = hour;
   time.tm_mday = day;                             // 1..31
   time.tm_mon = month - 1;                        // Note 0..11
-  time.tm_year = year >= 70 ? year : 100 + year;  // Years since 1900
+  // The CANopen date epoch is 1984, so the 2-digit year is 1984..2083
+  time.tm_year = year >= 84 ? year : 100 + year;  // Years since 1900
   time.tm_wday =
       day_in_week == 7 ? 0 : day_in_week;  // 0 = Sunday..6 = Saturday. Actually
                                            // ignored by mktime()
-- 
2.43.0


From 87e5f4cb7ca50e4f56880e64406a5fe6705c183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 03/82] fix: keep the valid flag of variable length values

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..fa08c8b 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid, 0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid, 0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From a2bf7730aec4119b554613c41dc8c77d756f5b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:50 +0000
Subject: [PATCH 04/82] fix: byte order buffers returned a value from an array
 out of scope

---
 mdflib/src/bigbuffer.h    | 8 +++++---
 mdflib/src/littlebuffer.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..3e317cd 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,17 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val{};
   if (IsLittleEndian()) { // Computer uses little endian
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
+  } else {
+    memcpy(&val, buffer_.data(), sizeof(T));
   }
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
diff --git a/mdflib/src/littlebuffer.h b/mdflib/src/littlebuffer.h
index f508318..0d6dc52 100644
--- a/mdflib/src/littlebuffer.h
+++ b/mdflib/src/littlebuffer.h
@@ -76,16 +76,18 @@ size_t LittleBuffer<T>::size() const {
 
 template <typename T>
 T LittleBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val{};
 
   if (IsBigEndian()) {
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
+  } else {
+    memcpy(&val, buffer_.data(), sizeof(T));
   } 
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From 54976924b95d9e2c11e936e01edeba58a73f7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:24 +0000
Subject: [PATCH 05/82] fix: set start time and recalculate queued times before
 the worker may save them

---
 mdflib/src/mdfwriter.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..366e64a 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,7 +277,14 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
+  // Set the time in the header if this is the first DG block in the file.
+  // This gives a better start time than when the file was created. Note that
+  // the worker thread may save samples as soon as the state is changed.
+  if ( auto* header = Header();
+      header != nullptr && IsFirstMeasurement()) {
+    header->StartTime(start_time);
+  }
+
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
@@ -285,36 +292,27 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
+  write_state_ = WriteState::StartMeas;
   NotifySample();
+}
 
+void MdfWriter::StartMeasurement(ITimestamp &start_time) {
   // Set the time in the header if this is the first DG block in the file.
-  // This gives a better start time than when the file was created.
+  // This gives a better start time than when the file was created. Note that
+  // the worker thread may save samples as soon as the state is changed.
   if ( auto* header = Header();
       header != nullptr && IsFirstMeasurement()) {
     header->StartTime(start_time);
   }
 
-  NotifySample();
-}
-
-void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
-                   
+
   // The sample queue actual have absolute time. We have to recalculate the
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  NotifySample();
-
-  // Set the time in the header if this is the first DG block in the file.
-  // This gives a better start time than when the file was created.
-  if ( auto* header = Header();
-      header != nullptr && IsFirstMeasurement()) {
-    header->StartTime(start_time);
-  }
-
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
-- 
2.43.0


From 5a1522aaa7fe1fcc7db0551ca7bf8db796b41165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:13 +0000
Subject: [PATCH 06/82] fix: encode text as UTF-16 when the channel data type
 is UTF-16

---
 include/mdf/mdfhelper.h  |  6 ++++++
 mdflib/src/cn4block.cpp  |  7 +++++++
 mdflib/src/ichannel.cpp  | 10 +++++++++-
 mdflib/src/mdfhelper.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 4 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/include/mdf/mdfhelper.h b/include/mdf/mdfhelper.h
index 5046a4a..aaab0b3 100644
--- a/include/mdf/mdfhelper.h
+++ b/include/mdf/mdfhelper.h
@@ -231,6 +231,12 @@ class MdfHelper {
   static std::string Utf16ToUtf8(const std::wstring &utf16);
   /** \brief Converts a wide UTF8 string to an UTF16 string. */
   static std::wstring Utf8ToUtf16(const std::string &utf8);
+  /** \brief Converts an UTF8 string to an array of UTF16 code units.
+   *
+   * The array is not null-terminated.
+   */
+  static std::vector<uint8_t> Utf8ToUtf16Array(const std::string &utf8,
+                                               bool big_endian);
   /** \brief Returns tru if this computer uses Little Endian. */
   static bool ComputerUseLittleEndian();
 
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index fa08c8b..7a085a8 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -813,6 +813,13 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     // later stored into an SD/DZ block.
     uint64_t index;
     VlsdData temp(value);
+    if (DataType() == ChannelDataType::StringUTF16Le ||
+        DataType() == ChannelDataType::StringUTF16Be) {
+      auto text = MdfHelper::Utf8ToUtf16Array(value,
+                              DataType() == ChannelDataType::StringUTF16Be);
+      text.insert(text.end(), 2, 0);  // Null terminated
+      temp = VlsdData(text);
+    }
     auto itr = data_map_.find(temp);
     if (itr != data_map_.cend()) {
       index = itr->second;
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..9297102 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -1,6 +1,7 @@
 
 #include "mdf/ichannel.h"
 
+#include <algorithm>
 #include <ctime>
 #include <string>
 
@@ -558,7 +559,14 @@ void IChannel::SetTextValue(const std::string &value, bool valid) {
   }
   // The string shall be null terminated
   memset(buffer.data() + ByteOffset(), '\0', bytes);
-  if (value.size() < bytes) {
+  if (DataType() == ChannelDataType::StringUTF16Le ||
+      DataType() == ChannelDataType::StringUTF16Be) {
+    const auto text = MdfHelper::Utf8ToUtf16Array(value,
+                            DataType() == ChannelDataType::StringUTF16Be);
+    const size_t max_size = bytes >= 2 ? ((bytes / 2) - 1) * 2 : 0;
+    memcpy(buffer.data() + ByteOffset(), text.data(),
+           std::min(text.size(), max_size));
+  } else if (value.size() < bytes) {
     memcpy(buffer.data() + ByteOffset(), value.data(), value.size());
   } else {
     memcpy(buffer.data() + ByteOffset(), value.data(), bytes - 1);
diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 4c1a95e..5902fcb 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -321,6 +321,24 @@ std::string MdfHelper::Latin1ToUtf8(const std::string &latin1) {
 
 std::string MdfHelper::Utf16ToUtf8(const std::wstring &utf16) {
   if (utf16.empty()) return {};
+  if (sizeof(wchar_t) > 2) {
+    // The wide characters may be UTF16 code units. Merge surrogate pairs.
+    std::wstring utf32;
+    utf32.reserve(utf16.size());
+    for (size_t index = 0; index < utf16.size(); ++index) {
+      const auto code = static_cast<uint32_t>(utf16[index]);
+      const uint32_t next = index + 1 < utf16.size() ?
+          static_cast<uint32_t>(utf16[index + 1]) : 0;
+      if ((code & 0xFFFFFC00) == 0xD800 && (next & 0xFFFFFC00) == 0xDC00) {
+        utf32 += static_cast<wchar_t>(0x10000 + ((code & 0x3FF) << 10)
+                                      + (next & 0x3FF));
+        ++index;
+      } else {
+        utf32 += utf16[index];
+      }
+    }
+    return widetoutf8(utf32);
+  }
   return widetoutf8(utf16);
 }
 
@@ -329,6 +347,28 @@ std::wstring MdfHelper::Utf8ToUtf16(const std::string &utf8) {
   return utf8towide(utf8);
 }
 
+std::vector<uint8_t> MdfHelper::Utf8ToUtf16Array(const std::string &utf8,
+                                                 bool big_endian) {
+  std::vector<uint8_t> dest;
+  dest.reserve(utf8.size() * 2);
+  auto add_unit = [&](uint32_t unit) -> void {
+    const auto low = static_cast<uint8_t>(unit & 0xFF);
+    const auto high = static_cast<uint8_t>((unit >> 8) & 0xFF);
+    dest.push_back(big_endian ? high : low);
+    dest.push_back(big_endian ? low : high);
+  };
+  for (const wchar_t wide : Utf8ToUtf16(utf8)) {
+    const auto code = static_cast<uint32_t>(wide);
+    if (code > 0xFFFF) {
+      add_unit(0xD800 + ((code - 0x10000) >> 10));
+      add_unit(0xDC00 + ((code - 0x10000) & 0x3FF));
+    } else {
+      add_unit(code);
+    }
+  }
+  return dest;
+}
+
 bool MdfHelper::ComputerUseLittleEndian() {
   constexpr int num = 1;
   return *(reinterpret_cast<const char *>(&num)) == 1;
-- 
2.43.0


From 2b8870c08b17cbe5fad2546cffbc805a75be452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 07/82] fix: MDF 3 conversion parameters were written with the
 variant tag

---
 mdflib/src/cc3block.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..3b3d8aa 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (size_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(static_cast<uint16_t>(par)));
       }
       break;
 
@@ -322,8 +322,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (size_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(static_cast<uint16_t>(par)));
       }
       break;
 
-- 
2.43.0


From cd93b668b2b79a19a81a1a209a5ca16190a9ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:17 +0000
Subject: [PATCH 08/82] fix: compressing data that cannot be compressed lost
 the tail of the data

---
 mdflib/src/zlibutil.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..878d292 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -106,15 +106,9 @@ bool Deflate(const std::string& filename, ByteArray& buf_out) {
 }
 
 bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
-  if (buf_out.empty()) {
-    buf_out.resize(buf_in.size() + 100);
-  }
   if (buf_in.empty()) {
     return false;
   }
-  if (buf_out.size() < 100) {
-    buf_out.resize(100, 0);
-  }
 
   z_stream s{};
   auto ret = deflateInit(&s, Z_DEFAULT_COMPRESSION);
@@ -122,6 +116,13 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
     return false;
   }
 
+  // The output is larger than the input if the data cannot be compressed
+  const auto max_size = static_cast<size_t>(
+      deflateBound(&s, static_cast<uLong>(buf_in.size())));
+  if (buf_out.size() < max_size) {
+    buf_out.resize(max_size, 0);
+  }
+
   s.avail_in = static_cast<uInt>(buf_in.size());
   s.next_in = const_cast<Bytef*>(buf_in.data());
 
@@ -129,6 +130,7 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   s.next_out = const_cast<Bytef*>(buf_out.data());
   ret = deflate(&s, Z_FINISH); /* no bad return value */
   if (ret == Z_STREAM_ERROR) { /* state not clobbered */
+    deflateEnd(&s);
     return false;
   }
   const auto compress = static_cast<uInt>(buf_out.size()) - s.avail_out;
-- 
2.43.0


From 35149643ac12d3d76c78fedffc4eaa1a7f45562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:39 +0000
Subject: [PATCH 09/82] fix: sample queue read a removed sample

---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..f4d502c 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From b883a6796ffbba6bbd580665f75c0cb2ea2b0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:48 +0000
Subject: [PATCH 10/82] fix: pre-trigger trimming dropped all samples if the
 last sample was older or the pre-trigger time is large

---
 mdflib/src/samplequeue.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index f4d502c..65390e9 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -69,12 +69,15 @@ void SampleQueue::TrimQueue() {
     const auto last_time = queue_.back().timestamp;
     if (start_time > 0) {
       // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
+      if (pre_trig_time >= start_time ||
+          next_time >= start_time - pre_trig_time) {
         break;
       }
     } else {
       // Measurement not started. The queue shall be at least the pre-trig time
-      const auto buffer_time = last_time - next_time;
+      // Note that samples from different threads may not be in strict order.
+      const auto buffer_time = last_time > next_time ?
+                                           last_time - next_time : 0;
       if (buffer_time <= pre_trig_time) {
         break;
       }
-- 
2.43.0


From 53bb71b58344815323b955ff08da74f953cebe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:57 +0000
Subject: [PATCH 11/82] fix: stop request to the worker thread could be missed

---
 mdflib/src/writecache.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index f187f1d..4784be0 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -108,7 +108,11 @@ void WriteCache::Exit() {
 }
 
 void WriteCache::StopWorkThread() {
-  stop_thread_ = true;
+  {
+    // The worker must not miss the request between its check and its wait
+    std::lock_guard lock(locker_);
+    stop_thread_ = true;
+  }
   if (work_thread_.joinable()) {
     sample_event_.notify_one();
     work_thread_.join();
-- 
2.43.0


From 9c4e34e135117b4de916cba64f27c9b261a15b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 12/82] fix: a failing save left the queue unlocked and
 terminated the process

---
 mdflib/src/convertersamplequeue.cpp |  1 +
 mdflib/src/writecache.cpp           | 13 ++++++++++++-
 mdflib/src/writer4samplequeue.cpp   |  2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..e09905d 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -52,6 +52,7 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
 
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    lock.lock();
     return;
   }
 
diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index 4784be0..e49563c 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -157,14 +157,25 @@ void WriteCache::WorkThread() {
     }
     catch (...) {
       MDF_ERROR() << "Failed to save queue";
+      if (!lock.owns_lock()) {
+        lock.lock(); // The queue is unlocked during file operations
+      }
     }}
 
   } while (!stop_thread_);
   {
     std::unique_lock lock(locker_);
     for (auto& [channel_group, sample_queue] : cache_) {
-      if (sample_queue) {
+      if (!sample_queue) {
+        continue;
+      }
+      try {
         sample_queue->CleanQueue(lock);
+      } catch (...) {
+        MDF_ERROR() << "Failed to save queue";
+        if (!lock.owns_lock()) {
+          lock.lock();
+        }
       }
     }
   }
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..25abb86 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -54,10 +54,12 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
   }
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    lock.lock();
     return;
   }
   const auto data_position = dt4->DataPosition();
   if (data_position <= 0) {
+    lock.lock();
     return;
   }
 
-- 
2.43.0


From fe8ed7440424ed67360f6b3566806a36ef1d2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:55 +0000
Subject: [PATCH 13/82] fix: queue size was read without lock while samples are
 added

---
 mdflib/src/convertersamplequeue.cpp | 5 ++++-
 mdflib/src/writer4samplequeue.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index e09905d..8021a3c 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -201,7 +201,10 @@ void ConverterSampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lo
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      lock.lock(); // Samples may be added to the queue
+      const bool new_block = finalize || QueueSize() > buffer_max;
+      lock.unlock();
+      if (new_block) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->OrigBlockType("DT");
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 25abb86..4f1e181 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -223,7 +223,10 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      lock.lock(); // Samples may be added to the queue
+      const bool new_block = finalize || QueueSize() > buffer_max;
+      lock.unlock();
+      if (new_block) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->Init(*dl4);
-- 
2.43.0


From 94b3dcd45bfb2599a3606d33cc73b130a5c65d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 14/82] fix: variable length data in a header list could not be
 read by offset

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From ab7cb1819b82844af5abbcd3f1bd7be6ccb186cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:25 +0000
Subject: [PATCH 15/82] fix: CAN bus observer lost R0, DLC, error type and bit
 position

---
 mdflib/src/canbusobserver.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..3d5e0be 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,12 +80,13 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
@@ -298,12 +299,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -340,6 +335,13 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  // The DLC is set last as the length and the data bytes changes it.
+  if (dlc_channel_ != nullptr) {
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
@@ -411,7 +413,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From 0b267835a6212a47adb2a2617ac2cd31474a90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:34 +0000
Subject: [PATCH 16/82] fix: CAN bus observer callback got messages without
 their type

---
 mdflib/src/canbusobserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 3d5e0be..fc639e5 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -250,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
-- 
2.43.0


From 6ba574b0f11d346670926637f1f71f6603aa2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:55 +0000
Subject: [PATCH 17/82] fix: bus group names contained the channel number as a
 control character

---
 mdflib/src/iconfigadapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/iconfigadapter.cpp b/mdflib/src/iconfigadapter.cpp
index ee262ca..b3bc549 100644
--- a/mdflib/src/iconfigadapter.cpp
+++ b/mdflib/src/iconfigadapter.cpp
@@ -339,13 +339,13 @@ std::string IConfigAdapter::MakeGroupName(
   }
   switch (filter_type_) {
     case MessageFilter::ChannelFilter:
-      name << bus_name << bus_channel_ << "_" << base_name;
+      name << bus_name << static_cast<int>(bus_channel_) << "_" << base_name;
       break;
 
     case MessageFilter::MessageIdFilter:
       name << bus_name;
       if (bus_channel_ > 0) {
-        name << bus_channel_;
+        name << static_cast<int>(bus_channel_);
       }
       name << "_" << base_name;
       name << "_" << message_id_;
-- 
2.43.0


From 3571190f6a546d5738b537c3cc517ef782b7b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:12 +0000
Subject: [PATCH 18/82] fix: CAN MLSD records shorter than 8 data bytes did not
 match their layout

---
 mdflib/src/canconfigadapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/canconfigadapter.cpp b/mdflib/src/canconfigadapter.cpp
index 690d421..7a10d6b 100644
--- a/mdflib/src/canconfigadapter.cpp
+++ b/mdflib/src/canconfigadapter.cpp
@@ -126,8 +126,8 @@ void CanConfigAdapter::CreateCanDataFrameChannel(IChannelGroup& group) const {
   switch (StorageType()) {
     // In reality,  MLSD storage should have max length equal to 8.
     case MdfStorageType::MlsdStorage:
-      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + writer_.MaxLength() :
-                                (32 - 16) + writer_.MaxLength());
+      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + MaxLength() :
+                                (32 - 16) + MaxLength());
       break;
 
     case MdfStorageType::FixedLengthStorage:
@@ -225,7 +225,7 @@ void CanConfigAdapter::CreateCanErrorFrameChannel(IChannelGroup& group) const {
   cn_error_frame->DataType(ChannelDataType::ByteArray);
 
   if (StorageType() == MdfStorageType::MlsdStorage) {
-    cn_error_frame->DataBytes((34 - 16) + writer_.MaxLength());
+    cn_error_frame->DataBytes((34 - 16) + MaxLength());
   } else {
     cn_error_frame->DataBytes(34 - 8); // Index into SD or VLSD
   }
@@ -290,7 +290,7 @@ IChannel* CanConfigAdapter::CreateDataBytesChannel(IChannel& parent_channel,
     switch(StorageType()) {
       case MdfStorageType::MlsdStorage:
         frame_bytes->Type(ChannelType::MaxLength);
-        frame_bytes->BitCount(8 * writer_.MaxLength());
+        frame_bytes->BitCount(8 * MaxLength());
         break;
 
       case MdfStorageType::VlsdStorage:
-- 
2.43.0


From 21150822104a085516af50fd38b2802538550513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 19/82] fix: LIN direction bit was written at another position
 than its channel

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From f430d41b0f4545a5b6e5c2f02b4cd7b62b455bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 20/82] fix: LIN member channels had wrong names, sizes or
 positions

---
 mdflib/src/linconfigadapter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..e39a626 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,14 +408,14 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
 }
 
 void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) const {
-  const bool mandatory = writer_.MandatoryMembersOnly();
+  const bool mandatory = MandatoryMembersOnly();
   IChannel* cn_frame = group.CreateChannel("LIN_TransmissionError");
   if (cn_frame == nullptr) {
     MDF_ERROR() << "Failed to create the channel. Name: " << "LIN_TransmissionError";
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From 92e94071fa527ab9be0c1f77f7773420bd89238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:06 +0000
Subject: [PATCH 21/82] fix: FlexRay channel and channel mask were always saved
 as 0

---
 mdflib/src/flexraymessage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..839c535 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From a779237b7e3671ec3672efd6778db62337071773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:14 +0000
Subject: [PATCH 22/82] fix: FlexRay records were longer than the layout,
 payload index was lost

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 839c535..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
-- 
2.43.0


From 764cbdb427c92a78b053c49892473b523cdf72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:47 +0000
Subject: [PATCH 23/82] fix: formatting a float outside the integer range was
 undefined behaviour

---
 mdflib/src/mdfhelper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 5902fcb..69edc97 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -239,11 +239,13 @@ std::string MdfHelper::FormatDouble(double value, uint8_t decimals, bool fixed,
   }
 
   std::string text;
-  auto value_int = static_cast<int64_t>(value);
-  if (value == static_cast<double>(value_int) && !fixed) {
+  // Only values that fit in an integer, can be shown as an integer
+  const bool fits_int = value > -9.2E18 && value < 9.2E18;
+  auto value_int = fits_int ? static_cast<int64_t>(value) : 0;
+  if (fits_int && value == static_cast<double>(value_int) && !fixed) {
     // If the value actually is an integer then just show it as an integer
     text = std::to_string(value_int);
-  } else if (decimals == 0) {
+  } else if (fits_int && decimals == 0) {
     // Fixed round of float
     value_int = static_cast<int64_t>(std::floor(value + 0.5));
     text = std::to_string(value_int);
-- 
2.43.0


From 4596668a88d3bfb31d6359620c3cee9ab0fc11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:21 +0000
Subject: [PATCH 24/82] fix: a text starting with '<' was saved as an XML block
 and lost

---
 mdflib/src/md4block.cpp | 7 ++++++-
 mdflib/src/tx4block.cpp | 9 +++++++--
 mdflib/src/tx4block.h   | 2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/md4block.cpp b/mdflib/src/md4block.cpp
index 1c9bd0f..8517846 100644
--- a/mdflib/src/md4block.cpp
+++ b/mdflib/src/md4block.cpp
@@ -475,7 +475,12 @@ void Md4Block::GetBlockProperty(BlockPropertyList &dest) const {
   }
 }
 
-void Md4Block::XmlSnippet(const std::string &text) { text_ = text; }
+void Md4Block::XmlSnippet(const std::string &text) {
+  if (!text.empty() && text[0] == '<') {
+    block_type_ = "##MD";
+  }
+  text_ = text;
+}
 
 const std::string &Md4Block::XmlSnippet() const { return text_; }
 
diff --git a/mdflib/src/tx4block.cpp b/mdflib/src/tx4block.cpp
index c1b1a8d..c8587c3 100644
--- a/mdflib/src/tx4block.cpp
+++ b/mdflib/src/tx4block.cpp
@@ -13,7 +13,11 @@
 
 namespace mdf::detail {
 
-Tx4Block::Tx4Block(std::string text) : text_(std::move(text)) {}
+Tx4Block::Tx4Block() { block_type_ = "##TX"; }
+
+Tx4Block::Tx4Block(std::string text) : text_(std::move(text)) {
+  block_type_ = "##TX";
+}
 
 std::string FixCommentToLine(const std::string &comment, size_t max) {
   std::ostringstream temp;
@@ -85,7 +89,8 @@ uint64_t Tx4Block::Write(std::streambuf& buffer) {
   if (update) {
     return block_size_;
   }
-  const bool is_xml = !text_.empty() && text_[0] == '<';
+  // Only a meta-data (MD) block holds XML. A plain text may start with a '<'.
+  const bool is_xml = !IsTxtBlock() && !text_.empty() && text_[0] == '<';
   block_type_ = is_xml ? "##MD" : "##TX";
   block_size_ = static_cast<uint16_t>(24 + text_.size() + 1);
   link_list_.clear();
diff --git a/mdflib/src/tx4block.h b/mdflib/src/tx4block.h
index 921f8d8..57bcdaf 100644
--- a/mdflib/src/tx4block.h
+++ b/mdflib/src/tx4block.h
@@ -13,7 +13,7 @@ std::string FixCommentToLine(const std::string& comment, size_t max);
 
 class Tx4Block : public MdfBlock {
  public:
-  Tx4Block() = default;
+  Tx4Block();
   explicit Tx4Block(std::string  text);
 
   void GetBlockProperty(BlockPropertyList& dest) const override;
-- 
2.43.0


From f4cf8e7d394828b722a7077e0fda39b9d41db7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:31 +0000
Subject: [PATCH 25/82] fix: table conversions had no entries until they were
 written to a file

---
 mdflib/src/cc4block.cpp           | 1 +
 mdflib/src/ichannelconversion.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..2bc239a 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -603,6 +603,7 @@ void Cc4Block::Reference(const uint16_t index, const std::string& text) {
       temp->Text(text);
       ref_list_[index] = std::move(temp);
     }
+    nof_references_ = static_cast<uint16_t>(ref_list_.size());
   } catch (const std::exception& err) {
     MDF_ERROR() << "Failed to add a text reference. Index: "
                 << index << ", Text: " << text << ", Error: " << err.what();
diff --git a/mdflib/src/ichannelconversion.cpp b/mdflib/src/ichannelconversion.cpp
index 6be5e79..e6d5a9f 100644
--- a/mdflib/src/ichannelconversion.cpp
+++ b/mdflib/src/ichannelconversion.cpp
@@ -319,6 +319,7 @@ void IChannelConversion::Parameter(uint16_t index, double parameter) {
     value_list_.emplace_back(0.0);
   }
   value_list_[index] = parameter;
+  nof_values_ = static_cast<uint16_t>(value_list_.size());
 }
 
 double IChannelConversion::Parameter(uint16_t index) const {
@@ -360,6 +361,7 @@ void IChannelConversion::ParameterUint(uint16_t index, uint64_t parameter) {
     value_list_.emplace_back(static_cast<uint64_t>(0));
   }
   value_list_[index] = parameter;
+  nof_values_ = static_cast<uint16_t>(value_list_.size());
 }
 
 void IChannelConversion::Name(const std::string &name) {}
-- 
2.43.0


From f2e585cea6beeab97d585ca97db20a33e4be7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:13 +0000
Subject: [PATCH 26/82] fix: text conversions were cut at white space or lost
 when read as engineering value

---
 include/mdf/ichannelobserver.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 18c3844..59e42ea 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -9,6 +9,7 @@
  */
 #pragma once
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #include "mdf/ichannel.h"
@@ -361,9 +362,24 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
       std::string v;
       valid = GetSampleText(sample,  v, array_index);
       std::string temp;
-      conversion->Convert(v, temp);
-      std::istringstream temp1(temp);
-      temp1 >> value;
+      if (conversion->Type() == ConversionType::TextToValue) {
+        double number = 0.0;
+        valid = valid && conversion->Convert(v, number);
+        if constexpr (std::is_arithmetic_v<V>) {
+          value = static_cast<V>(number);
+          break;
+        }
+        temp = MdfHelper::FormatDouble(number,
+            conversion->IsDecimalUsed() ? conversion->Decimals() : 6);
+      } else {
+        conversion->Convert(v, temp);
+      }
+      if constexpr (std::is_same_v<V, std::string>) {
+        value = temp;
+      } else {
+        std::istringstream temp1(temp);
+        temp1 >> value;
+      }
       break;
     }
 
-- 
2.43.0


From f02e8843cf821ec52f2ae1ce153edea09c8fcac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:55 +0000
Subject: [PATCH 27/82] fix: reading a non-numeric text as a number threw an
 exception

---
 include/mdf/ichannelconversion.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index eeefc27..78259d9 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -8,6 +8,7 @@
  *
  */
 #pragma once
+#include <exception>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -526,7 +527,11 @@ bool IChannelConversion::Convert(const std::string& channel_value,
   if (Type() == ConversionType::TextToValue) {
     ConvertTextToValue(channel_value, eng_value);
   } else if (Type() == ConversionType::NoConversion) {
-    eng_value = std::stod(channel_value);
+    try {
+      eng_value = std::stod(channel_value);
+    } catch (const std::exception&) {
+      return false;  // The text is not a number
+    }
   } else {
     return false;
   }
-- 
2.43.0


From e0d23d86a7ee0f8e1417666bbf5bf88a8f682cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 28/82] fix: an empty file could not be attached compressed

The attachment was not written and broke the list of attachments.
---
 mdflib/src/zlibutil.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 878d292..002e51d 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -106,10 +106,6 @@ bool Deflate(const std::string& filename, ByteArray& buf_out) {
 }
 
 bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
-  if (buf_in.empty()) {
-    return false;
-  }
-
   z_stream s{};
   auto ret = deflateInit(&s, Z_DEFAULT_COMPRESSION);
   if (ret != Z_OK) {
-- 
2.43.0


From f6d771a085211609e4253a516008d1f09e7ffcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:19 +0000
Subject: [PATCH 29/82] fix: floating point metadata lost precision or became
 zero

---
 include/mdf/etag.h        |  7 +++++++
 include/mdf/mdfhelper.h   |  4 ++++
 include/mdf/mdnumber.h    |  3 +++
 include/mdf/mdproperty.h  |  3 +++
 mdflib/src/etag.cpp       |  5 +++++
 mdflib/src/ixmlnode.cpp   | 10 ++++++++++
 mdflib/src/ixmlnode.h     | 15 +++++++++++++++
 mdflib/src/mdfhelper.cpp  | 11 +++++++++++
 mdflib/src/mdnumber.cpp   |  8 +++++++-
 mdflib/src/mdproperty.cpp |  6 ++++++
 10 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/include/mdf/etag.h b/include/mdf/etag.h
index 349742a..01199cf 100644
--- a/include/mdf/etag.h
+++ b/include/mdf/etag.h
@@ -210,6 +210,13 @@ void ETag::Value(const T& value) {
   value_ = temp.str();
 }
 
+/** \brief Specialization of setting floating point values
+ *
+ * @param value Floating point value
+ */
+template <>
+void ETag::Value(const double& value);
+
 /** \brief Specialization of setting boolean values
  *
  * @param value Boolean value
diff --git a/include/mdf/mdfhelper.h b/include/mdf/mdfhelper.h
index aaab0b3..c5ee0e5 100644
--- a/include/mdf/mdfhelper.h
+++ b/include/mdf/mdfhelper.h
@@ -222,6 +222,10 @@ class MdfHelper {
       double value, uint8_t decimals, bool fixed = false,
       const std::string &unit = {});  ///< Converts a float to a string.
 
+  /// Converts a float to the shortest text that is read back as exactly the
+  /// same value.
+  static std::string DoubleToString(double value);
+
   static uint64_t NowNs(); ///< Return nano-seconds since 1970.
 
   /** \brief Converts a Latin1 string to UTF8 string. */
diff --git a/include/mdf/mdnumber.h b/include/mdf/mdnumber.h
index f09c298..59152f1 100644
--- a/include/mdf/mdnumber.h
+++ b/include/mdf/mdnumber.h
@@ -102,6 +102,9 @@ void MdNumber::Number(T value) {
   }
 }
 
+template <>
+void MdNumber::Number(double value);
+
 template <>
 void MdNumber::Number(uint64_t value);
 
diff --git a/include/mdf/mdproperty.h b/include/mdf/mdproperty.h
index c58d95d..669f6d0 100644
--- a/include/mdf/mdproperty.h
+++ b/include/mdf/mdproperty.h
@@ -86,6 +86,9 @@ void MdProperty::Value(T value) {
 template <>
 void MdProperty::Value(std::string value);
 
+template <>
+void MdProperty::Value(double value);
+
 template <>
 void MdProperty::Value(bool value);
 
diff --git a/mdflib/src/etag.cpp b/mdflib/src/etag.cpp
index 6a775d9..ab133f7 100644
--- a/mdflib/src/etag.cpp
+++ b/mdflib/src/etag.cpp
@@ -10,6 +10,11 @@
 
 namespace mdf {
 
+template <>
+void ETag::Value(const double& value) {
+  value_ = MdfHelper::DoubleToString(value);
+}
+
 template <>
 void ETag::Value(const bool& value) {
   value_ = value ? "true" : "false";
diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..b896a09 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -207,11 +207,21 @@ void IXmlNode::Value(const bool &value) {
   value_ = value ? "true" : "false";
 }
 
+template <>
+void IXmlNode::Value(const double &value) {
+  value_ = MdfHelper::DoubleToString(value);
+}
+
 template <>
 void IXmlNode::Value(const std::string &value) {
   value_ = value;
 }
 
+template <>
+void IXmlNode::SetAttribute(const std::string &key, const double &value) {
+  attribute_list_.insert({key, MdfHelper::DoubleToString(value)});
+}
+
 template <>
 void IXmlNode::SetAttribute(const std::string &key, const bool &value) {
   attribute_list_.insert({key, value ? "true" : "false"});
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..4e2aa9f 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -210,6 +210,13 @@ void IXmlNode::Value(const T &value) {
   value_ = temp.str();
 }
 
+/** \brief Adds a floating point value
+ *
+ * @param value Floating point value
+ */
+template <>
+void IXmlNode::Value(const double &value);
+
 /** \brief Adds a boolean value
  *
  * @param value Boolean value
@@ -301,6 +308,14 @@ inline std::string IXmlNode::Value() const {
   mdf::MdfHelper::Trim(v);
   return v;
 }
+/** \brief Sets a floating point attribute
+ *
+ * @param key Attribute name
+ * @param value  Attribute value
+ */
+template <>
+void IXmlNode::SetAttribute(const std::string &key, const double &value);
+
 /** \brief Sets a boolean attribute
  *
  * @param key Attribute name
diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 69edc97..673b6ca 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -226,6 +226,17 @@ void MdfHelper::Trim(std::string &text) {
   RTrim(text);
 }
 
+std::string MdfHelper::DoubleToString(double value) {
+  char temp[40]{};
+  for (int precision = 6; precision <= 17; ++precision) {
+    snprintf(temp, sizeof(temp), "%.*g", precision, value);
+    if (std::strtod(temp, nullptr) == value) {
+      break;
+    }
+  }
+  return temp;
+}
+
 std::string MdfHelper::FormatDouble(double value, uint8_t decimals, bool fixed,
                                     const std::string &unit) {
   // Maximize it to 20 decimals
diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..5a4a3d5 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -5,6 +5,7 @@
 #include <utility>
 #include <limits>
 
+#include "mdf/mdfhelper.h"
 #include "mdf/mdnumber.h"
 
 #include "ixmlnode.h"
@@ -13,8 +14,8 @@ namespace mdf {
 
 MdNumber::MdNumber(double number)
 : MdStandardAttribute(),
-  number_(std::to_string(number)),
   data_type_(MdDataType::MdFloat) {
+  Number(number);
 }
 
 MdNumber::MdNumber(uint64_t number, MdDataType data_type)
@@ -112,6 +113,11 @@ const std::string& MdNumber::UnitRef() const {
   return unit_ref_;
 }
 
+template <>
+void MdNumber::Number(double value) {
+  number_ = MdfHelper::DoubleToString(value);
+}
+
 template <>
 void MdNumber::Number(uint64_t value) {
   try {
diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index 60dcc30..daa8c79 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -8,6 +8,7 @@
 #include <sstream>
 
 #include "mdf/mdproperty.h"
+#include "mdf/mdfhelper.h"
 #include "mdf/itimestamp.h"
 #include "mdf/mdflogstream.h"
 
@@ -158,6 +159,11 @@ void MdProperty::Name(std::string name) {
     value_ = std::move(value);
   }
 
+  template <>
+  void MdProperty::Value(double value) {
+    value_ = MdfHelper::DoubleToString(value);
+  }
+
   template <>
   void MdProperty::Value(bool value) {
     value_ = value ? "true" : "false";
-- 
2.43.0


From 92db7b35ef596744072c40ef7004da8068288a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:30 +0000
Subject: [PATCH 30/82] fix: the source file of an embedded attachment was left
 open

---
 mdflib/src/at4block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..d3a1f4c 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -75,6 +75,7 @@ bool FileToBuffer(const std::string& filename, mdf::ByteArray& dest) {
       Platform::fileopen(&file, filename.c_str(), "rb");
       if (file != nullptr) {
         const auto nof_bytes = fread(dest.data(), 1, static_cast<size_t>(size), file);
+        fclose(file);
         if (nof_bytes < size) {
           dest.resize(nof_bytes);
         }
-- 
2.43.0


From e02025a49ab3fdfd8adf06663e67912c2b37e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 31/82] fix: a group or hierarchy description starting with '<'
 was stored as XML

---
 mdflib/src/cg4block.cpp | 2 +-
 mdflib/src/ch4block.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index d492ff1..0d78c5d 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -67,7 +67,7 @@ void Cg4Block::Name(const std::string &name) { acquisition_name_ = name; }
 std::string Cg4Block::Name() const { return acquisition_name_; }
 
 void Cg4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  md_comment_ = std::make_unique<Tx4Block>(description);
 }
 
 std::string Cg4Block::Description() const { return MdText(); }
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..7beafb6 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -124,7 +124,7 @@ void Ch4Block::Type(ChType type) { type_ = static_cast<uint8_t>(type); }
 ChType Ch4Block::Type() const { return static_cast<ChType>(type_); }
 
 void Ch4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  md_comment_ = std::make_unique<Tx4Block>(description);
 }
 
 std::string Ch4Block::Description() const { return MdText(); }
-- 
2.43.0


From cd4d0c7a66652dc8bab635523fcc4efbee1b0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:02 +0000
Subject: [PATCH 32/82] fix: links of hierarchies, events and channels to
 blocks written later were lost

The channel hierarchy elements were also read from the wrong link index, and
the event scopes were cast to the wrong class.
---
 mdflib/src/ch4block.cpp | 26 +++++++++++++++++++++++++-
 mdflib/src/ch4block.h   |  2 ++
 mdflib/src/cn4block.cpp | 16 ++++++++++++++++
 mdflib/src/cn4block.h   |  2 ++
 mdflib/src/ev4block.cpp | 26 +++++++++++++++++++++++---
 mdflib/src/ev4block.h   |  2 ++
 mdflib/src/hd4block.cpp | 20 ++++++++++++++++++++
 7 files changed, 90 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 7beafb6..0867742 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,7 +148,7 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
+    const auto index = 4 + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
@@ -173,6 +173,30 @@ void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   }
 }
 
+void Ch4Block::UpdateReferences(std::streambuf& buffer) {  // NOLINT
+  for (size_t index_n = 0; index_n < element_list_.size(); ++index_n) {
+    const auto index = 4 + (index_n * 3);
+    if (index + 2 >= link_list_.size()) {
+      break;
+    }
+    const auto &element = element_list_[index_n];
+    if (element.data_group != nullptr) {
+      UpdateLink(buffer, index, element.data_group->Index());
+    }
+    if (element.channel_group != nullptr) {
+      UpdateLink(buffer, index + 1, element.channel_group->Index());
+    }
+    if (element.channel != nullptr) {
+      UpdateLink(buffer, index + 2, element.channel->Index());
+    }
+  }
+  for (auto &ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+}
+
 IChannelHierarchy *Ch4Block::CreateChannelHierarchy() {
   auto ch4 = std::make_unique<Ch4Block>();
   ch4->Init(*this);
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..d2ba29b 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -45,6 +45,8 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint64_t Read(std::streambuf& buffer) override;
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
+  /** \brief Updates the links to blocks that now have been written. */
+  void UpdateReferences(std::streambuf& buffer);
 
   [[nodiscard]] IChannelHierarchy *CreateChannelHierarchy() override;
   [[nodiscard]] std::vector<IChannelHierarchy *> ChannelHierarchies()
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 7a085a8..27172ec 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1346,6 +1346,22 @@ void Cn4Block::DefaultX(const ElementLink &default_x) {
   default_x_ = default_x;
 }
 
+void Cn4Block::UpdateReferences(std::streambuf& buffer) {
+  if (default_x_.IsEmpty() || (flags_ & CnFlag::DefaultX) == 0) {
+    return;
+  }
+  const size_t index = kIndexAt + nof_attachments_;
+  if (default_x_.data_group != nullptr) {
+    UpdateLink(buffer, index, default_x_.data_group->Index());
+  }
+  if (default_x_.channel_group != nullptr) {
+    UpdateLink(buffer, index + 1, default_x_.channel_group->Index());
+  }
+  if (default_x_.channel != nullptr) {
+    UpdateLink(buffer, index + 2, default_x_.channel->Index());
+  }
+}
+
 ElementLink Cn4Block::DefaultX() const {
   // The default_x_ variable is not populate when reading.
   // Fix file position to pointer transfer if needed.
diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 559b660..fdc45f0 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -149,6 +149,8 @@ class Cn4Block : public DataListBlock, public IChannel {
 
   void DefaultX(const ElementLink& default_x) override;
   [[nodiscard]] ElementLink DefaultX() const override;
+  /** \brief Updates the links to blocks that now have been written. */
+  void UpdateReferences(std::streambuf& buffer);
 
   void CopyFrom(const IChannel& source) override;
   void CopyConfigFrom(const IChannel& source) override;
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..202bc28 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -192,8 +192,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
+    const auto *block = static_cast<const IBlock *>(scope_list_[index_m]);
+    link_list_[index] = block != nullptr ? block->Index() : 0;
   }
   for (size_t index_n = 0; index_n < length_n_; ++index_n) {
     const auto index = 5 + length_m_ + index_n;
@@ -316,7 +316,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      // The scope list holds IChannelGroup or IChannel pointers.
+      scope_list_.push_back(dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
   }
 
@@ -330,4 +331,23 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   }
 }
 
+void Ev4Block::UpdateReferences(std::streambuf& buffer) {
+  auto update = [&](size_t index, const IBlock *block) {
+    if (block != nullptr && index < link_list_.size()) {
+      UpdateLink(buffer, index, block->Index());
+    }
+  };
+  update(kIndexParent, parent_event_);
+  update(kIndexRange, range_event_);
+  for (size_t index_m = 0;
+       index_m < length_m_ && index_m < scope_list_.size(); ++index_m) {
+    update(kIndexScope + index_m,
+           static_cast<const IBlock *>(scope_list_[index_m]));
+  }
+  for (size_t index_n = 0;
+       index_n < length_n_ && index_n < attachment_list_.size(); ++index_n) {
+    update(kIndexScope + length_m_ + index_n, attachment_list_[index_n]);
+  }
+}
+
 }  // namespace mdf::detail
\ No newline at end of file
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 6b5867b..2131ef1 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -18,6 +18,8 @@ class Ev4Block : public MdfBlock, public IEvent {
   uint64_t Read(std::streambuf& buffer) override;
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
+  /** \brief Updates the links to blocks that now have been written. */
+  void UpdateReferences(std::streambuf& buffer);
 
   [[nodiscard]] int64_t Index() const override;
   [[nodiscard]] std::string BlockType() const override {
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..b5630b9 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,26 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The channels, hierarchies and events may refer to blocks that were written
+  // after them.
+  for (const auto& dg4 : dg_list_) {
+    for (const auto& cg4 : dg4->Cg4()) {
+      for (const auto& cn4 : cg4->Cn4()) {
+        cn4->UpdateReferences(buffer);
+      }
+    }
+  }
+  for (auto& ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+  for (auto& ev4 : ev_list_) {
+    if (ev4) {
+      ev4->UpdateReferences(buffer);
+    }
+  }
   return bytes;
 }
 
-- 
2.43.0


From 8accf61f2f4e68a0d1017fd784526fb36afc29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:04 +0000
Subject: [PATCH 33/82] fix: a group without samples added its DT block inside
 the growing DT block of the active group

---
 mdflib/src/writer4samplequeue.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 4f1e181..35fb992 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -45,6 +45,13 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
 
+  // A group without samples to save must not add its DT block to the file, as
+  // the DT block of the active group, which grows last in the file, would
+  // enclose it.
+  if (IsEmpty()) {
+    return;
+  }
+
   lock.unlock();
 
   writer_.Open( std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-- 
2.43.0


From b82917c81082a26b3f760a3c260bb47de897669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:31 +0000
Subject: [PATCH 34/82] fix: channel array stored a wrong invalidation bit base

---
 mdflib/src/ca4block.cpp |  3 ++-
 mdflib/src/ca4block.h   |  4 ++++
 mdflib/src/cn4block.cpp | 17 ++++++++++++++---
 mdflib/src/cn4block.h   |  1 +
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..3943544 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -707,7 +707,8 @@ void Ca4Block::PrepareForWriting() {
     }
     byte_offset_base_ = static_cast<int32_t>(size_of_value);
 
-    invalid_bit_pos_base_ = 0;
+    // Each element have its own invalidation bit
+    invalid_bit_pos_base_ = 1;
   }
 }
 
diff --git a/mdflib/src/ca4block.h b/mdflib/src/ca4block.h
index a3aaf2d..16f6925 100644
--- a/mdflib/src/ca4block.h
+++ b/mdflib/src/ca4block.h
@@ -66,6 +66,10 @@ class Ca4Block : public MdfBlock, public IChannelArray {
 
   void SetParentChannel(const Cn4Block* parent);
   void PrepareForWriting();
+  /** \brief Number of invalidation bits between two array elements. */
+  [[nodiscard]] uint32_t InvalidBitPosBase() const {
+    return invalid_bit_pos_base_;
+  }
   void CopyFrom(const IChannelArray& source) override;
 
  private:
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 27172ec..e1fd5d2 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1164,11 +1164,22 @@ void Cn4Block::PrepareForWriting(uint64_t offset) {
   }
 }
 
+uint64_t Cn4Block::InvalidPosition(uint64_t array_index) const {
+  uint64_t base = 0;
+  for (const auto* array : ChannelArrays()) {
+    if (const auto* ca4 = dynamic_cast<const Ca4Block*>(array);
+        ca4 != nullptr) {
+      base = ca4->InvalidBitPosBase();
+      break;
+    }
+  }
+  return invalid_bit_pos_ + array_index * base;
+}
+
 void Cn4Block::SetValid(bool valid, uint64_t array_index) {
   if ((Flags() & CnFlag::InvalidValid) != 0 && cg_block_ != nullptr) {
     auto& buffer = SampleBuffer();
-    const uint32_t invalid_pos = invalid_bit_pos_ +
-                                 static_cast<uint32_t>(array_index);
+    const auto invalid_pos = static_cast<uint32_t>(InvalidPosition(array_index));
     const uint32_t byte_offset = cg_block_->NofDataBytes() + (invalid_pos / 8);
     const uint32_t bit_offset = invalid_pos % 8;
     const uint8_t mask = 0x01 << bit_offset;
@@ -1186,7 +1197,7 @@ bool Cn4Block::GetValid(const std::vector<uint8_t> &record_buffer,
                         uint64_t array_index) const {
   bool valid = true;
   if (Flags() & CnFlag::InvalidValid && cg_block_ != nullptr) {
-    const auto invalid_pos = invalid_bit_pos_ + array_index;
+    const auto invalid_pos = InvalidPosition(array_index);
     const auto byte_offset = static_cast<size_t>( cg_block_->NofDataBytes() + (invalid_pos / 8) );
     const auto bit_offset = invalid_pos % 8;
     const uint8_t mask = 0x01 << bit_offset;
diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index fdc45f0..2fef0bb 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -121,6 +121,7 @@ class Cn4Block : public DataListBlock, public IChannel {
   }
 
   void SetValid(bool valid, uint64_t array_index) override;
+  [[nodiscard]] uint64_t InvalidPosition(uint64_t array_index) const;
   bool GetValid(const std::vector<uint8_t> &record_buffer,
                 uint64_t array_index) const override;
   void ClearData() override;
-- 
2.43.0


From 7ccc9bb66afd9d12350f4efd673970d7dfb1367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:10 +0000
Subject: [PATCH 35/82] fix: an empty data block in a data list ended the
 reading

---
 mdflib/src/readcache.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..baad445 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -365,6 +365,13 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return true;
   }
 
+  // Step over any empty data blocks
+  while (block_index_ < block_list_.size() &&
+         block_list_[block_index_] != nullptr &&
+         block_list_[block_index_]->DataSize() == 0) {
+    ++block_index_;
+  }
+
   if (block_index_ >= block_list_.size()) {
     return false;
   }
-- 
2.43.0


From 5c869ff2be401dbc87ebf7c80655fa3dcd171f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:57 +0000
Subject: [PATCH 36/82] fix: the valid flag of a VLSD channel was taken from
 its variable length data

---
 include/mdf/ichannel.h       | 7 +++----
 mdflib/src/channelobserver.h | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 86b10d7..ca5c463 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -422,6 +422,9 @@ class IChannel : public IBlock  {
    */
   bool GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
                                 uint64_t &dest, uint64_t array_index = 0) const;
+  /** \brief Support function that return true if the valid bit is set.*/
+  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
+                        uint64_t array_index) const;
   /** \brief Internally used function mainly for fetching VLSD text values.
     *
     * @param record_buffer The sample record buffer.
@@ -600,10 +603,6 @@ class IChannel : public IBlock  {
   /** \brief Support function that sets the valid flag. */
   virtual void SetValid(bool valid, uint64_t array_index);
 
-  /** \brief Support function that return true if the valid bit is set.*/
-  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
-                        uint64_t array_index) const;
-
   /** \brief Support function that sets unsigned little endian values */
   void SetUnsignedValueLe(uint64_t value, bool valid, uint64_t array_index);
   /** \brief Support function that sets unsigned big endian values */
diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index a84ae7c..59f9454 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -107,7 +107,8 @@ class ChannelObserver : public IChannelObserver {
           // If variable length, the value is an index into an SD block.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             uint64_t offset = 0; // Offset into SD/CG block
-            valid = channel_.GetUnsignedValue(record, offset, array_index);
+            valid = channel_.GetUnsignedValue(record, offset, array_index) &&
+                    channel_.GetValid(record, array_index);
 
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
             if (sample_index < offset_list_.size()) {
@@ -133,13 +134,11 @@ class ChannelObserver : public IChannelObserver {
           // Add the VLSD offset data to this channel
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
-            valid = channel_.GetChannelValue(record, value, array_index);
+            // The valid flag is stored in the fixed length record
+            channel_.GetChannelValue(record, value, array_index);
             if (sample_index < value_list_.size()) {
               value_list_[sample_index] = value;
             }
-            if (sample_index < valid_list_.size()) {
-              valid_list_[sample_index] = valid;
-            }
           }
         }
         break;
-- 
2.43.0


From 26a11bec177ed8cffcec594584690c02e31cc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 37/82] fix: values of a channel with the all values invalid
 flag were reported as valid

---
 mdflib/src/cn4block.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index e1fd5d2..c1f7bdf 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1195,6 +1195,9 @@ void Cn4Block::SetValid(bool valid, uint64_t array_index) {
 
 bool Cn4Block::GetValid(const std::vector<uint8_t> &record_buffer,
                         uint64_t array_index) const {
+  if (Flags() & CnFlag::AllValuesInvalid) {
+    return false;
+  }
   bool valid = true;
   if (Flags() & CnFlag::InvalidValid && cg_block_ != nullptr) {
     const auto invalid_pos = InvalidPosition(array_index);
-- 
2.43.0


From b7a56c9f9c76aadd2eea5d4af465d76a81f9be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:26 +0000
Subject: [PATCH 38/82] fix: negative time zone offsets were stored and applied
 as unsigned garbage

---
 mdflib/src/mdf3timestamp.cpp | 6 +++---
 mdflib/src/timestamp.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/mdf3timestamp.cpp b/mdflib/src/mdf3timestamp.cpp
index 494821f..0be6e15 100644
--- a/mdflib/src/mdf3timestamp.cpp
+++ b/mdflib/src/mdf3timestamp.cpp
@@ -2,9 +2,9 @@
 
 #include "mdf/mdfhelper.h"
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f2b8624..fe1cca9 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -12,9 +12,9 @@
 using namespace std::chrono;
 
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
-- 
2.43.0


From 0fc9abec58eb6d1e988211951a1103467685a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:34 +0000
Subject: [PATCH 39/82] fix: ISO time fractions of other than 3, 6 or 9 digits
 had the wrong magnitude

---
 mdflib/src/timestamp.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index fe1cca9..f5b0c13 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -220,8 +220,10 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::MilliSecond:
           if (input == '.') {
             state = DateState::MilliSecond;
-          } else if (std::isdigit(input) && minute.str().size() < 9) {
-            millisecond << input;
+          } else if (std::isdigit(input)) {
+            if (millisecond.str().size() < 9) {
+              millisecond << input;
+            }
           } else if (input == 'Z') {
             utc = true;
           } else if (input == '-' || input == '+') {
@@ -324,14 +326,9 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
 
     utc_timestamp_ = utc_time;
     utc_timestamp_ *= 1'000'000'000;  // Now ns
-    if (millisecond.str().empty()) {
-      return;
-    } else if (millisecond.str().size() <= 3) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000'000;
-    } else if (millisecond.str().size() <= 6) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000;
-    } else {
-      utc_timestamp_ += std::stoull(millisecond.str());
+    if (std::string fraction = millisecond.str(); !fraction.empty()) {
+      fraction.resize(9, '0');  // The fraction in ns
+      utc_timestamp_ += std::stoull(fraction);
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid cast: " << err.what();
-- 
2.43.0


From 24476b8b4d78844720b7a90c14231b8f233645e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 40/82] fix: minutes of a negative ISO time zone offset had the
 wrong sign

---
 mdflib/src/timestamp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f5b0c13..642db35 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -298,7 +298,12 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     tz_offset = tz_hour.str().empty() ? 0 : std::stoi(tz_hour.str());
     // MDF_TRACE() << tz_hour.str() << "/" << tz_offset << std::endl;
     tz_offset *= 60;  // Now minutes
-    tz_offset += tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    if (!tz_minute.str().empty()) {
+      // The sign is in the hour part and is valid for both hours and minutes
+      const bool negative = !tz_hour.str().empty() && tz_hour.str()[0] == '-';
+      const int minutes = std::stoi(tz_minute.str());
+      tz_offset += negative ? -minutes : minutes;
+    }
     tz_offset *= 60;  // Now in seconds
 
     // 0..59 as normal
-- 
2.43.0


From b0e6b693c004a7055b4b4c2f01d5fb3cb817fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 41/82] fix: reading of a string or byte array past the end of
 the file had no end or exhausted the memory

---
 mdflib/src/mdfblock.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index b4f086f..00bfc54 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -4,11 +4,13 @@
  */
 #include "mdfblock.h"
 
+#include <algorithm>
 #include <chrono>
 #include <cstdio>
 #include <fstream>
 #include <ios>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <thread>
@@ -175,8 +177,11 @@ void SetFirstFilePosition(std::streambuf& buffer) {
 }
 
 uint64_t StepFilePosition(std::streambuf& buffer, uint64_t steps) {
+  if (steps > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {
+    throw std::ios_base::failure("Failed to set a stream position");
+  }
   const auto pos = buffer.pubseekoff(
-      static_cast<std::streambuf::pos_type>(steps), std::ios_base::cur);
+      static_cast<std::streamoff>(steps), std::ios_base::cur);
   if (pos < 0) {
     throw std::ios_base::failure("Failed to set a stream position");
   }
@@ -202,14 +207,22 @@ uint64_t ReadByte(std::streambuf& buffer,
     return 0;
   }
 
-  dest.resize(static_cast<size_t>(size), 0);
-  const auto ret = buffer.sgetn(
-      reinterpret_cast<char*>(dest.data()),
-      static_cast<std::streamsize>(size));
-  if (ret != size) {
-    throw std::ios_base::failure("End of stream reached (EOF).");
+  // The size may come from a corrupt file, so allocate memory as the bytes
+  // are read.
+  constexpr uint64_t kMaxChunk = 16'000'000;
+  dest.clear();
+  for (uint64_t count = 0; count < size; /* No ++ here*/) {
+    const uint64_t chunk = std::min(size - count, kMaxChunk);
+    dest.resize(static_cast<size_t>(count + chunk), 0);
+    const auto ret = buffer.sgetn(
+        reinterpret_cast<char*>(dest.data()) + count,
+        static_cast<std::streamsize>(chunk));
+    if (ret < 0 || static_cast<uint64_t>(ret) != chunk) {
+      throw std::ios_base::failure("End of stream reached (EOF).");
+    }
+    count += chunk;
   }
-  return static_cast<uint64_t>(ret);
+  return size;
 }
 
 uint64_t WriteByte(std::streambuf& buffer, const std::vector<uint8_t> &source) {
@@ -232,6 +245,9 @@ uint64_t ReadStr(std::streambuf& buffer, std::string &dest, uint64_t size) {
   uint64_t ii;
   for (ii = 0; ii < size; ++ii) {
     const int input = buffer.sbumpc();
+    if (input == std::char_traits<char>::eof()) {
+      throw std::ios_base::failure("End of stream reached (EOF).");
+    }
     if (input == '\0') {
       ++ii;
       break;
-- 
2.43.0


From 3d6b057b434885539d0fa1907fdbb31b3adbfacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 42/82] fix: reading of a corrupt file with cyclic links had no
 end

---
 mdflib/src/cg3block.cpp      |  4 ++++
 mdflib/src/cn4block.cpp      |  4 ++++
 mdflib/src/datalistblock.cpp |  6 ++++++
 mdflib/src/dg3block.cpp      |  2 ++
 mdflib/src/hd3block.cpp      |  2 ++
 mdflib/src/mdfblock.cpp      | 16 ++++++++++++++++
 mdflib/src/mdfblock.h        | 18 ++++++++++++++++++
 7 files changed, 52 insertions(+)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..fb7aab6 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -185,7 +185,9 @@ uint64_t Cg3Block::Write(std::streambuf& buffer) {
 
 void Cg3Block::ReadCnList(std::streambuf& buffer) {
   if (cn_list_.empty() && Link(kIndexCn) > 0) {
+    std::set<int64_t> visited;
     for (auto link = Link(kIndexCn); link > 0; /* No ++ here*/) {
+      CheckListLoop(visited, link);
       auto cn = std::make_unique<Cn3Block>();
       cn->Init(*this);
       SetFilePosition(buffer, link);
@@ -198,7 +200,9 @@ void Cg3Block::ReadCnList(std::streambuf& buffer) {
 
 void Cg3Block::ReadSrList(std::streambuf& buffer) {
   if (sr_list_.empty() && Link(kIndexSr) > 0) {
+    std::set<int64_t> visited;
     for (auto link = Link(kIndexSr); link > 0; /* No ++ here*/) {
+      CheckListLoop(visited, link);
       auto sr = std::make_unique<Sr3Block>();
       sr->Init(*this);
       SetFilePosition(buffer, link);
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c1f7bdf..6592fcc 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -417,7 +417,9 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
     auto block_type = ReadBlockType(buffer);
 
     if (cx_list_.empty() && (Link(kIndexCx) > 0)) {
+      std::set<int64_t> visited;
       for (auto link = Link(kIndexCx); link > 0; /* No ++ here*/) {
+        CheckListLoop(visited, link);
         if (block_type == "CA") {
           auto ca_block = std::make_unique<Ca4Block>();
           ca_block->Init(*this);
@@ -433,6 +435,8 @@ uint64_t Cn4Block::Read(std::streambuf& buffer) {
           cn_block->Read(buffer);
           link = cn_block->Link(0);
           cx_list_.emplace_back(std::move(cn_block));
+        } else {
+          break;  // Unknown type of composition block
         }
       }
     }
diff --git a/mdflib/src/datalistblock.cpp b/mdflib/src/datalistblock.cpp
index 8dfd3f6..b94f401 100644
--- a/mdflib/src/datalistblock.cpp
+++ b/mdflib/src/datalistblock.cpp
@@ -52,7 +52,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       di_block->Read(buffer);
       block_list_.emplace_back(std::move(di_block));
     } else if (block_type == "DL") {
+      std::set<int64_t> visited;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        CheckListLoop(visited, link);
         SetFilePosition(buffer, link);
         auto dl = std::make_unique<Dl4Block>();
         dl->Init(*this);
@@ -61,7 +63,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
         block_list_.emplace_back(std::move(dl));
       }
     } else if (block_type == "LD") {
+      std::set<int64_t> visited;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        CheckListLoop(visited, link);
         SetFilePosition(buffer, link);
         auto ld_block = std::make_unique<Ld4Block>();
         ld_block->Init(*this);
@@ -75,7 +79,9 @@ void DataListBlock::ReadBlockList(std::streambuf& buffer, size_t data_index) {
       hl->Read(buffer);
       block_list_.emplace_back(std::move(hl));
     } else if (block_type == "SR") {
+      std::set<int64_t> visited;
       for (auto link = Link(data_index); link > 0; /* no increment here*/) {
+        CheckListLoop(visited, link);
         SetFilePosition(buffer, link);
         auto sr = std::make_unique<Sr4Block>();
         sr->Init(*this);
diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..3ed0338 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -75,7 +75,9 @@ uint64_t Dg3Block::Read(std::streambuf& buffer) {
   }
 
   cg_list_.clear();
+  std::set<int64_t> visited;
   for (auto link = Link(kIndexCg); link > 0; /* No ++ here*/) {
+    CheckListLoop(visited, link);
     auto cg3 = std::make_unique<Cg3Block>();
     cg3->Init(*this);
     SetFilePosition(buffer, link);
diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index fee5c39..c42ca9e 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -221,7 +221,9 @@ uint64_t Hd3Block::Write(std::streambuf& buffer) {
 
 void Hd3Block::ReadMeasurementInfo(std::streambuf& buffer) {
   dg_list_.clear();
+  std::set<int64_t> visited;
   for (auto link = Link(kIndexDg); link > 0; /* No ++ here*/) {
+    CheckListLoop(visited, link);
     auto dg = std::make_unique<Dg3Block>();
     dg->Init(*this);
     SetFilePosition(buffer, link);
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index 00bfc54..d9cc99b 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -426,8 +426,23 @@ size_t MdfBlock::ReadHeader4(std::FILE *file) {
 }
 */
 
+void MdfBlock::CheckParentLoop() const {
+  for (const auto* block = parent_; block != nullptr; block = block->parent_) {
+    if (block->file_position_ == file_position_ && file_position_ > 0) {
+      throw std::runtime_error("A link points to a parent block.");
+    }
+  }
+}
+
+void MdfBlock::CheckListLoop(std::set<int64_t>& visited, int64_t link) {
+  if (!visited.insert(link).second) {
+    throw std::runtime_error("The list of blocks has no end.");
+  }
+}
+
 uint64_t MdfBlock::ReadHeader3(std::streambuf& buffer) {
   file_position_ = GetFilePosition(buffer);
+  CheckParentLoop();
   uint64_t bytes = ReadStr(buffer, block_type_, 2);
   if (block_type_ == "##") {
     throw std::runtime_error("MDF 4 header detected. This is not an MDF 3 file.");
@@ -452,6 +467,7 @@ uint64_t MdfBlock::ReadLinks3(std::streambuf& buffer, size_t nof_links) {
 
 uint64_t MdfBlock::ReadHeader4(std::streambuf& buffer) {
   file_position_ = GetFilePosition(buffer);
+  CheckParentLoop();
   uint64_t bytes = ReadStr(buffer, block_type_, 4);
   uint32_t reserved = 0;
   bytes += ReadNumber(buffer, reserved);
diff --git a/mdflib/src/mdfblock.h b/mdflib/src/mdfblock.h
index 17f0ebc..88a3c98 100644
--- a/mdflib/src/mdfblock.h
+++ b/mdflib/src/mdfblock.h
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <iomanip>
 #include <memory>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -199,6 +200,21 @@ class MdfBlock {
   uint64_t ReadLinks3(std::streambuf& buffer, size_t nof_links);  ///< Reads MDF3 links into the link list.
   uint64_t ReadHeader4(std::streambuf& buffer);  ///< Read in MDF4 header and links.
 
+  /** \brief Throws an exception if a parent block has the same position.
+   *
+   * Detects links in corrupt files, that point back to a block that is
+   * being read.
+   */
+  void CheckParentLoop() const;
+
+  /** \brief Throws an exception if a list link already have been followed.
+   *
+   * Detects lists in corrupt files, that never end.
+   * @param visited Links that have been followed so far.
+   * @param link Next link to follow.
+   */
+  static void CheckListLoop(std::set<int64_t>& visited, int64_t link);
+
   void ReadMdComment(std::streambuf& buffer, size_t index_md);
   void WriteMdComment(std::streambuf& buffer, size_t index_md);
 
@@ -424,8 +440,10 @@ template <typename T>
 void MdfBlock::ReadLink4List(std::streambuf& buffer,
                                    std::vector<std::unique_ptr<T>> &block_list,
                                    size_t link_index) {
+  std::set<int64_t> visited;
   if (block_list.empty() && (Link(link_index) > 0))
     for (int64_t link = Link(link_index); link > 0; /* No ++ here*/) {
+      CheckListLoop(visited, link);
       auto block = std::make_unique<T>();
       block->Init(*this);
       SetFilePosition(buffer, link);
-- 
2.43.0


From aabfe524010100e7bd3eb461b2270d6dcb25154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 43/82] fix: opening a file shorter than its ID block threw an
 exception out of the MdfReader constructor

---
 mdflib/src/mdfreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 0a6cd1c..4799d30 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -302,7 +302,14 @@ void MdfReader::VerifyMdfFile() {
   }
 
   auto id_block = std::make_unique<detail::IdBlock>();
-  id_block->Read(*file_);
+  try {
+    id_block->Read(*file_);
+  } catch (const std::exception& err) {
+    MDF_ERROR() << "Failed to read the ID block. File: " << Filename()
+                << ", Error: " << err.what();
+    Close();
+    return;
+  }
 
   if (Platform::strnicmp(id_block->FileId().c_str(), "MDF", 3) == 0 ||
       Platform::strnicmp(id_block->FileId().c_str(), "UnFinMF", 7) == 0) {
-- 
2.43.0


From 0737b25e4c9e5c93a3d996b9950989f9bc466980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:10 +0000
Subject: [PATCH 44/82] fix: export of an attachment that ends after the end of
 the file wrote garbage bytes, possibly without end

---
 mdflib/src/at4block.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index d3a1f4c..cc493d8 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -48,9 +48,11 @@ std::string MakeFlagString(uint16_t flag) {
 }
 
 bool CopyBytes(std::streambuf& source, std::streambuf& dest, uint64_t nof_bytes) {
-  uint8_t temp = 0;
   for (uint64_t ii = 0; ii < nof_bytes; ++ii) {
-    temp = source.sbumpc();
+    const int temp = source.sbumpc();
+    if (temp == std::char_traits<char>::eof()) {
+      return false;
+    }
     dest.sputc(static_cast<char>(temp));
   }
   return true;
-- 
2.43.0


From 191ffa347a1960b335bf8b3228fda5bab6aedf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:56 +0000
Subject: [PATCH 45/82] fix: reading of a corrupt compressed block read and
 wrote outside its buffers

---
 mdflib/src/datablock.cpp |  2 +-
 mdflib/src/dz4block.cpp  | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/mdflib/src/datablock.cpp b/mdflib/src/datablock.cpp
index 63c4131..800298e 100644
--- a/mdflib/src/datablock.cpp
+++ b/mdflib/src/datablock.cpp
@@ -44,7 +44,7 @@ uint64_t DataBlock::CopyDataToBuffer(std::streambuf& buffer,
   if (data_size == 0) {
     return 0;
   }
-  if (dest.size() < (buffer_index + data_size)) {
+  if (buffer_index > dest.size() || data_size > dest.size() - buffer_index) {
     throw std::runtime_error("Buffer overflow detected.");
   }
 
diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..aad7e7c 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -119,16 +119,22 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
     return 0;
   }
 
+  if (buffer_index > dest.size() ||
+      orig_data_length_ > dest.size() - buffer_index) {
+    throw std::runtime_error("Buffer overflow detected.");
+  }
+
   SetFilePosition(from_file, data_position_);
 
   uint64_t count = 0;
   switch (static_cast<Dz4ZipType>(type_)) {
     case Dz4ZipType::Deflate: {
-      ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn( reinterpret_cast<char*>(temp.data()),
-                              static_cast<std::streamsize>(temp.size()) );
+      ByteArray temp;
+      ReadByte(from_file, temp, data_length_);
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to inflate the data block.");
+      }
       count = orig_data_length_;
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
@@ -136,11 +142,12 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
     }
 
     case Dz4ZipType::TransposeAndDeflate: {
-      ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn(reinterpret_cast<char*>(temp.data()),
-                      static_cast<std::streamsize>(temp.size()) );
+      ByteArray temp;
+      ReadByte(from_file, temp, data_length_);
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to inflate the data block.");
+      }
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
-- 
2.43.0


From ceeae69ebb211e77ede926dfe7be25d32c38f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:56 +0000
Subject: [PATCH 46/82] fix: reading of a corrupt channel array block exhausted
 the memory

---
 mdflib/src/ca4block.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index 3943544..05ee957 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -4,6 +4,7 @@
  */
 #include "ca4block.h"
 #include <algorithm>
+#include <limits>
 
 #include "mdf/idatagroup.h"
 #include "mdf/ichannelgroup.h"
@@ -284,10 +285,22 @@ uint64_t Ca4Block::Read(std::streambuf& buffer) {
   for (uint64_t& dim_size : dim_size_list_ ) {
     bytes += ReadNumber(buffer, dim_size);
   }
+  const auto max_bytes = BlockLength();
+  // An array can't have more values than a 32-bit byte offset can address
+  constexpr uint64_t kMaxArraySize = std::numeric_limits<uint32_t>::max();
+  uint64_t array_size = 1;
+  for (const uint64_t dim_size : dim_size_list_) {
+    if (dim_size > 0 && dim_size > kMaxArraySize / array_size) {
+      throw std::runtime_error("Invalid array size.");
+    }
+    array_size *= dim_size > 0 ? dim_size : 1;
+  }
   const auto sum_dim = SumOfArray();
   const auto prod_dim = ProductOfArray();
-  const auto max_bytes = BlockLength();
   if ((flags_ & CaFlag::FixedAxis) != 0) {
+    if (sum_dim > max_bytes / 8) {
+      throw std::runtime_error("Invalid number of array axis values.");
+    }
     axis_value_list_.resize(static_cast<size_t>(sum_dim), 0.0);
     for (double& axis_value : axis_value_list_) {
       bytes += ReadNumber(buffer, axis_value);
@@ -297,7 +310,8 @@ uint64_t Ca4Block::Read(std::streambuf& buffer) {
   switch (Storage()) {
     case ArrayStorage::CgTemplate:
     case ArrayStorage::DgTemplate: {
-      cycle_count_list_.resize(static_cast<size_t>(prod_dim), 0);
+      cycle_count_list_.resize(
+          static_cast<size_t>(std::min(prod_dim, max_bytes / 8)), 0);
       for (uint64_t& cycle : cycle_count_list_) {
         if (bytes + 8 <= max_bytes) {
           bytes += ReadNumber(buffer, cycle);
@@ -320,7 +334,8 @@ void Ca4Block::FindAllReferences(std::streambuf& buffer) {
   const uint64_t prod_dim = ProductOfArray();
   size_t link_index = 1;
   if (Storage() == ArrayStorage::DgTemplate) {
-    data_links_.resize(static_cast<size_t>(prod_dim), 0);
+    data_links_.resize(static_cast<size_t>(
+        std::min(prod_dim, static_cast<uint64_t>(link_list_.size()))), 0);
     for (int64_t& position : data_links_) {
       position = Link(link_index);
       ++link_index;
-- 
2.43.0


From 4e4c8aac5960f7713a4a2d1fc552b0ab2b44c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:23 +0000
Subject: [PATCH 47/82] fix: reading of data records past the end of the data
 had no end or returned garbage

---
 mdflib/src/readcache.cpp | 56 +++++++++++++++++++++++++++-------------
 mdflib/src/readcache.h   |  1 +
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index baad445..cfcc406 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -88,8 +88,7 @@ bool ReadCache::ParseRecord() {
       }
 
     } else {
-      const size_t record_size = channel_group->NofDataBytes()
-                                 + channel_group->NofInvalidBytes();
+      const size_t record_size = RecordSize(*channel_group);
       // Normal fixed length records
       if (record_id_list_.find(record_id) == record_id_list_.cend()) {
         SkipBytes(record_size);
@@ -173,8 +172,7 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
         }
       }
     } else {
-      const size_t record_size = channel_group->NofDataBytes()
-                                 + channel_group->NofInvalidBytes();
+      const size_t record_size = RecordSize(*channel_group);
       // Normal fixed length records
       if (!cg_range->IsUsed() ||
           next_sample < range.MinSample() ||
@@ -261,13 +259,12 @@ bool ReadCache::ParseSignalDataOffset(uint64_t offset) {
     return false;
   }
 
-  if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
-    SkipBytes(bytes_to_skip);
-    offset_ += bytes_to_skip;
-  }
-
-
   try {
+    if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
+      SkipBytes(bytes_to_skip);
+      offset_ += bytes_to_skip;
+    }
+
     if (data_count_ + 4 > max_data_count_ ) {
       return false;
     }
@@ -335,8 +332,7 @@ bool ReadCache::ParseVlsdCgData() {
           offset_ += 4 + length.value();
         }
       } else {
-        const size_t record_size = channel_group->NofDataBytes()
-                                   + channel_group->NofInvalidBytes();
+        const size_t record_size = RecordSize(*channel_group);
         SkipBytes(record_size);
         skip = true;
       }
@@ -351,11 +347,24 @@ bool ReadCache::ParseVlsdCgData() {
   return data_count_ <= max_data_count_;
 }
 
+size_t ReadCache::RecordSize(const Cg4Block& channel_group) const {
+  const size_t record_size = static_cast<size_t>(channel_group.NofDataBytes())
+                             + channel_group.NofInvalidBytes();
+  if (record_size == 0 && dg4_block_->RecordIdSize() == 0) {
+    throw std::runtime_error("The records have no size.");
+  }
+  return record_size;
+}
+
 bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
       // Read direct from the file
-     input = buffer_.sbumpc();
+      const int temp = buffer_.sbumpc();
+      if (temp == std::char_traits<char>::eof()) {
+        return false;
+      }
+      input = static_cast<uint8_t>(temp);
     } else {
       // Read from buffer in case of DZ block
       input = file_buffer_[file_index_];
@@ -403,7 +412,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return false;
   }
   if (file_buffer_.empty()) {
-    input = buffer_.sbumpc();
+    const int temp = buffer_.sbumpc();
+    if (temp == std::char_traits<char>::eof()) {
+      return false;
+    }
+    input = static_cast<uint8_t>(temp);
   } else {
     input = file_buffer_[file_index_];
   }
@@ -485,7 +498,10 @@ void ReadCache::GetArray(std::vector<uint8_t> &buffer) {
 }
 
 void ReadCache::SkipBytes(size_t nof_skip) {
-  if (file_index_ + nof_skip <= data_size_) {
+  if (file_index_ > data_size_) {
+    throw std::runtime_error("End of file detected.");
+  }
+  if (nof_skip <= data_size_ - file_index_) {
     if (file_buffer_.empty()) {
       const auto bytes = StepFilePosition(buffer_, nof_skip);
       if (bytes != nof_skip) {
@@ -499,11 +515,11 @@ void ReadCache::SkipBytes(size_t nof_skip) {
 
   // First skip the remaining bytes.
   nof_skip -= data_size_ - file_index_;
+  file_index_ = 0;
+  data_size_ = 0;
 
   // If a list try to skip block by block first
   while (block_index_ < block_list_.size()) {
-    file_index_ = 0;
-    data_size_ = 0;
     auto* current_block = block_list_[block_index_];
     ++block_index_;
     if (current_block == nullptr) {
@@ -512,6 +528,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     data_size_ = current_block->DataSize();
     if (nof_skip > data_size_) {
       nof_skip -= data_size_;
+      data_size_ = 0;
       continue;
     }
     // In right block. Set up the file buffer.
@@ -521,7 +538,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
         uint64_t temp_index = 0;
         current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
       } catch (const std::exception&) {
-        break;;
+        throw std::runtime_error("Failed to read a data block.");
       }
     } else {
       file_buffer_.clear();
@@ -530,6 +547,9 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     break;
   }
   // Step to the byte inside
+  if (nof_skip > data_size_ - file_index_) {
+    throw std::runtime_error("End of file detected.");
+  }
   if (nof_skip > 0) {
     if (file_buffer_.empty()) {
       const auto bytes = StepFilePosition(buffer_, nof_skip);
diff --git a/mdflib/src/readcache.h b/mdflib/src/readcache.h
index 381a8b1..474e556 100644
--- a/mdflib/src/readcache.h
+++ b/mdflib/src/readcache.h
@@ -81,6 +81,7 @@ class ReadCache {
   std::function<void(uint64_t, const std::vector<uint8_t>&)> callback_;
 
   uint64_t ParseRecordId();
+  [[nodiscard]] size_t RecordSize(const Cg4Block& channel_group) const;
   bool GetNextByte(uint8_t& input);
   void GetArray(std::vector<uint8_t>& buffer);
   void SkipBytes(size_t nof_skip);
-- 
2.43.0


From f5940d9d1b95ce2e67dcbe08fb6dd6a6d29fec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 48/82] fix: text and byte array values outside the record or
 the signal data read out of bounds or allocated up to 4 GB

---
 mdflib/src/cn4block.cpp | 31 +++++++++----------------------
 mdflib/src/ichannel.cpp | 16 +++-------------
 2 files changed, 12 insertions(+), 35 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 6592fcc..fdee975 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -653,28 +653,21 @@ bool Cn4Block::GetTextValue(const std::vector<uint8_t> &record_buffer,
     // Index into the local data buffer
     uint64_t index = 0;
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
-    try {
+    if (length.value() <= data_list_.size() - 4 - index) {
       temp.resize(length.value(), 0);
-    } catch (const std::exception&) {
-      return false;
-    }
-    if (index + 4 + length.value() <= data_list_.size()) {
       memcpy(temp.data(), data_list_.data() + index + 4, length.value());
     } else {
       valid = false;
     }
 
   } else {
-    try {
+    if (offset <= record_buffer.size() &&
+        nof_bytes <= record_buffer.size() - offset) {
       temp.resize(nof_bytes);
-    } catch(const std::exception&) {
-      return false;
-    }
-    if (offset + nof_bytes <= record_buffer.size()) {
       memcpy(temp.data(), record_buffer.data() + offset, nof_bytes);
     } else {
       valid = false;
@@ -760,6 +753,7 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
   auto offset = ByteOffset();
   uint64_t nof_bytes = BitCount() / 8;
   bool valid = true;
+  dest.clear();
 
   if (Type() == ChannelType::VariableLength && VlsdRecordId() > 0) {
     // If this is a VLSD channel and its data link points to a CG block, that
@@ -778,28 +772,21 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
     // in a SD block.
     uint64_t index = 0;  // Actual offset into the data block.
     valid = GetUnsignedValue(record_buffer, index);
-    if (index + 4 > data_list_.size()) {
+    if (data_list_.size() < 4 || index > data_list_.size() - 4) {
       return false;
     }
     const LittleBuffer<uint32_t> length(data_list_, static_cast<size_t>(index) );
-    try {
+    if (length.value() <= data_list_.size() - 4 - index) {
       dest.resize(length.value(), 0);
-    } catch (const std::exception&) {
-      return false; // Return invalid value
-    }
-    if (index + 4 + length.value() <= data_list_.size()) {
       memcpy(dest.data(), data_list_.data() + index + 4, length.value());
     } else {
       valid = false;
     }
 
   } else {
-    try {
+    if (offset <= record_buffer.size() &&
+        nof_bytes <= record_buffer.size() - offset) {
       dest.resize(static_cast<size_t>(nof_bytes), 0);
-    } catch (const std::exception&) {
-      return false; // Return invalid value
-    }
-    if (offset + nof_bytes <= record_buffer.size()) {
       memcpy(dest.data(), record_buffer.data() + offset, static_cast<size_t>(nof_bytes) );
     } else {
       valid = false;
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 9297102..53e4794 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -230,25 +230,15 @@ bool IChannel::GetTextValue(const std::vector<uint8_t> &record_buffer,
 
 bool IChannel::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
                                  std::vector<uint8_t> &dest) const {
-  try {
-    dest.resize(static_cast<size_t>(DataBytes()), 0);
-  } catch (const std::exception&) {
-    return false;
-  }
+  dest.clear();
   if (Type() == ChannelType::VariableLength && VlsdRecordId() > 0) {
     dest = record_buffer;
   } else {
-    if (dest.size() != DataBytes()) {
-      try {
-        dest.resize(static_cast<size_t>(DataBytes()) );
-      } catch (const std::exception&) {
-        return false;
-      }
-    }
-    if (dest.empty()) {
+    if (DataBytes() == 0) {
       return true;
     }
     if (ByteOffset() + static_cast<size_t>(DataBytes()) <= record_buffer.size()) {
+      dest.resize(static_cast<size_t>(DataBytes()), 0);
       memcpy(dest.data(), record_buffer.data() + ByteOffset(), static_cast<size_t>(DataBytes()) );
     } else {
       return false;
-- 
2.43.0


From 188f5fc1d45eac2cd32db451f7150ccd324d193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:58 +0000
Subject: [PATCH 49/82] fix: skipping of records in a corrupt file with too
 large a data block took endless time

---
 mdflib/src/dg3block.cpp  |  6 ++++++
 mdflib/src/readcache.cpp | 17 ++++++++++++++---
 mdflib/src/readcache.h   |  1 +
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 3ed0338..b0f8b9a 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -258,6 +258,12 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
   if (nof_data_bytes == 0) {
     return;
   }
+  // Records are skipped, so the end of a truncated file needs to be known.
+  const auto position = GetFilePosition(buffer);
+  const auto last_position = GetLastFilePosition(buffer);
+  SetFilePosition(buffer, position);
+  nof_data_bytes = position < last_position ?
+      std::min(nof_data_bytes, static_cast<uint64_t>(last_position - position)) : 0;
   for (const auto& channel_group : Cg3() ) {
     if (channel_group) {
       channel_group->ResetSampleCounter();
diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index cfcc406..925eef6 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -4,6 +4,7 @@
  */
 
 #include "readcache.h"
+#include <algorithm>
 #include <iostream>
 
 #include "mdf/mdflogstream.h"
@@ -356,6 +357,16 @@ size_t ReadCache::RecordSize(const Cg4Block& channel_group) const {
   return record_size;
 }
 
+void ReadCache::SetDataPosition(const DataBlock& block) {
+  // The block size may be larger than the file if the file is corrupt.
+  const auto last_position = GetLastFilePosition(buffer_);
+  const auto position = block.DataPosition();
+  const uint64_t max_size = position < last_position ?
+      static_cast<uint64_t>(last_position - position) : 0;
+  data_size_ = std::min(data_size_, max_size);
+  SetFilePosition(buffer_, position);
+}
+
 bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
@@ -404,7 +415,7 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
   } else {
     // Read from the file directly
-    SetFilePosition(buffer_, current_block->DataPosition());
+    SetDataPosition(*current_block);
     file_buffer_.clear(); // Indicate that we read from the file directly
   }
     // Read in the data form file to
@@ -542,7 +553,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
       }
     } else {
       file_buffer_.clear();
-      SetFilePosition(buffer_, current_block->DataPosition());
+      SetDataPosition(*current_block);
     }
     break;
   }
@@ -597,7 +608,7 @@ bool ReadCache::SkipByte() {
     }
   } else {
     file_buffer_.clear();
-    SetFilePosition(buffer_, current_block->DataPosition());
+    SetDataPosition(*current_block);
   }
 
   if (file_index_ >= data_size_) {
diff --git a/mdflib/src/readcache.h b/mdflib/src/readcache.h
index 474e556..f899f38 100644
--- a/mdflib/src/readcache.h
+++ b/mdflib/src/readcache.h
@@ -81,6 +81,7 @@ class ReadCache {
   std::function<void(uint64_t, const std::vector<uint8_t>&)> callback_;
 
   uint64_t ParseRecordId();
+  void SetDataPosition(const DataBlock& block);
   [[nodiscard]] size_t RecordSize(const Cg4Block& channel_group) const;
   bool GetNextByte(uint8_t& input);
   void GetArray(std::vector<uint8_t>& buffer);
-- 
2.43.0


From 95415548802def08e11945f1711e3391d99a0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:09 +0000
Subject: [PATCH 50/82] fix: reading of a corrupt event or hierarchy block with
 too many references took endless time

---
 mdflib/src/ch4block.cpp | 3 ++-
 mdflib/src/ev4block.cpp | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 0867742..312111f 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -147,7 +147,8 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
-  for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
+  for (size_t index_n = 0;
+       index_n < nof_elements_ && index_n < link_list_.size(); ++index_n) {
     const auto index = 4 + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index 202bc28..013d3b3 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -313,7 +313,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   parent_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexParent)));
   range_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexRange)));
   scope_list_.clear();
-  for (size_t index_m = 0; index_m < length_m_; ++index_m) {
+  for (size_t index_m = 0;
+       index_m < length_m_ && index_m < link_list_.size(); ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
       // The scope list holds IChannelGroup or IChannel pointers.
@@ -322,8 +323,9 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   }
 
   attachment_list_.clear();
-  for (size_t index_n = 0; index_n < length_n_; ++index_n) {
-    const auto index = 5 + length_m_ + index_n;
+  for (size_t index_n = 0;
+       index_n < length_n_ && index_n < link_list_.size(); ++index_n) {
+    const auto index = size_t{5} + length_m_ + index_n;
     if (index < link_list_.size()) {
       attachment_list_.push_back(
           dynamic_cast<const At4Block *>(hd4.Find(Link(index))));
-- 
2.43.0


From 9c4ed54d4ac88b27a8568f3d0bdde7035e07cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 51/82] fix: a process death before the first compressed block
 was written left a data link to a missing block

---
 mdflib/src/writer4samplequeue.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 35fb992..b2b19b9 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -343,21 +343,10 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
 }
 
 void Writer4SampleQueue::SetLastPosition(std::streambuf& buffer) {
+  // The data link of the DG block is set when its data block has been written.
+  // A link to a missing block makes the file unreadable if the writing is
+  // interrupted.
   buffer.pubseekoff(0, std::ios_base::end);
-
-  auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
-  if (dg4 == nullptr) {
-    return;
-  }
-
-  if (dg4->Link(2) > 0) {
-    return;
-  }
-
-  dg4->SetLastFilePosition(buffer);
-  auto position = GetFilePosition(buffer);
-  dg4->UpdateLink(buffer, 2, position);
-  dg4->SetLastFilePosition(buffer);
 }
 
-}  // namespace mdf::detail
\ No newline at end of file
+}  // namespace mdf::detail
-- 
2.43.0


From d203d0a0c69439225e3d76d0dfc1a326ca4c1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 52/82] fix: time of an integer master with a linear conversion
 was truncated instead of rounded

---
 mdflib/src/ichannel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 53e4794..9f26d6c 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -2,6 +2,7 @@
 #include "mdf/ichannel.h"
 
 #include <algorithm>
+#include <cmath>
 #include <ctime>
 #include <string>
 
@@ -972,6 +973,20 @@ void IChannel::SetTimestamp(double timestamp,
 
   const size_t bytes = BitCount() / 8;
 
+  // An integer holds the nearest value. Without rounding, 3 ms divided by 1 ms
+  // would be stored as 2 ms.
+  switch (DataType()) {
+    case ChannelDataType::UnsignedIntegerBe:
+    case ChannelDataType::UnsignedIntegerLe:
+    case ChannelDataType::SignedIntegerBe:
+    case ChannelDataType::SignedIntegerLe:
+      timestamp = std::round(timestamp);
+      break;
+
+    default:
+      break;
+  }
+
   switch (DataType()) {
     case ChannelDataType::UnsignedIntegerBe:
       if (timestamp < 0) {
-- 
2.43.0


From c81997439721c456b953dc5de5b68c19084857dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 53/82] fix: sorting recalculated the master values of the
 copied records

---
 mdflib/src/mdftask.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 5c4c12b..d99f6ce 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -282,6 +282,8 @@ IChannelGroup* MdfTask::CopyChannelConfig(const IChannelGroup& source_cg,
       throw std::logic_error("Failed to create the destination channel.");
     }
     dest_cn->CopyConfigFrom(*source_cn);
+    // The records are copied as they are, including the master value.
+    dest_cn->CalculateMasterTime(false);
   }
   return dest_cg;
 }
-- 
2.43.0


From 3c8e5fed47c19cdeb1922fd9304615b553997494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:41 +0000
Subject: [PATCH 54/82] fix: sorting an MDF 3 file reported success but lost
 names and conversions

---
 mdflib/src/sortingtask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index c1ded64..96a6cab 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -62,6 +62,11 @@ void SortingTask::SortFile() {
     if (!reader_ || !writer_) {
       throw std::runtime_error("Reader or writer is not initialized.");
     }
+    const MdfFile* source_file = reader_->GetFile();
+    if (source_file == nullptr || !source_file->IsMdf4()) {
+      // The copy functions only handle MDF 4 blocks
+      throw std::runtime_error("Only MDF 4 files can be sorted.");
+    }
     writer_->CalculateBitAndByteOffsets(false);
     CopyMainConfig();
 
-- 
2.43.0


From 924d7f7a717a5baff5cf7ab5749f62deb3bbe6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:50 +0000
Subject: [PATCH 55/82] fix: copying a conversion lost its text and conversion
 references

---
 mdflib/src/cc4block.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 2bc239a..fe29a24 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -566,9 +566,11 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
 
     for (const auto& source_ref : cc4->ref_list_) {
       if (!source_ref) {
+        // Keep the position of the following references
+        ref_list_.emplace_back();
         continue;
       }
-      if (source_ref->BlockType() != "TX") {
+      if (source_ref->BlockType() == "TX") {
         const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
         if (auto tx4_block = std::make_unique<Tx4Block>();
             tx4_block && source_tx4 != nullptr) {
-- 
2.43.0


From 425df8d1efef8944f0ce6e31fd8828f80d44fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:58 +0000
Subject: [PATCH 56/82] fix: appending to a file with a DV, DI or LD data block
 lost its data

---
 mdflib/src/di4block.h | 5 +++++
 mdflib/src/dv4block.h | 5 +++++
 mdflib/src/ld4block.h | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/mdflib/src/di4block.h b/mdflib/src/di4block.h
index 5a8a396..9e1e0c1 100644
--- a/mdflib/src/di4block.h
+++ b/mdflib/src/di4block.h
@@ -13,6 +13,11 @@ class Di4Block : public DataBlock {
  public:
   void GetBlockProperty(BlockPropertyList& dest) const override;
   uint64_t Read(std::streambuf& buffer) override;
+  uint64_t Write(std::streambuf& buffer) override {
+    // The block is never created by the library. A block already in the file
+    // shall be left as it is.
+    return FilePosition() > 0 ? block_length_ : MdfBlock::Write(buffer);
+  }
   [[nodiscard]] uint64_t DataSize() const override;
 };
 
diff --git a/mdflib/src/dv4block.h b/mdflib/src/dv4block.h
index b866e37..9f50e78 100644
--- a/mdflib/src/dv4block.h
+++ b/mdflib/src/dv4block.h
@@ -13,6 +13,11 @@ class Dv4Block : public DataBlock {
  public:
   void GetBlockProperty(BlockPropertyList& dest) const override;
   uint64_t Read(std::streambuf& buffer) override;
+  uint64_t Write(std::streambuf& buffer) override {
+    // The block is never created by the library. A block already in the file
+    // shall be left as it is.
+    return FilePosition() > 0 ? block_length_ : MdfBlock::Write(buffer);
+  }
   [[nodiscard]] uint64_t DataSize() const override;
 };
 
diff --git a/mdflib/src/ld4block.h b/mdflib/src/ld4block.h
index 764a5f8..1ab4852 100644
--- a/mdflib/src/ld4block.h
+++ b/mdflib/src/ld4block.h
@@ -20,6 +20,11 @@ class Ld4Block : public DataListBlock {
  public:
   void GetBlockProperty(BlockPropertyList& dest) const override;
   uint64_t Read(std::streambuf& buffer) override;
+  uint64_t Write(std::streambuf& buffer) override {
+    // The block is never created by the library. A block already in the file
+    // shall be left as it is.
+    return FilePosition() > 0 ? block_length_ : MdfBlock::Write(buffer);
+  }
 
  private:
   uint32_t flags_ = 0;
-- 
2.43.0


From b17fe9911ea2df6c4533528270452eaa78c554c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 57/82] fix: MDF 3 range reads failed when the record id isn't
 stored

A sorted data group has no record id in front of its records. The range
was looked up with id 0 instead of the record id of the channel group, so
that nothing was read if the group's id wasn't 0.
---
 mdflib/src/dg3block.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index b0f8b9a..258e324 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -277,8 +277,7 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
       count += ReadNumber(buffer, record_id);
     }
     const auto *cg3 = FindCgRecordId(record_id);
-    const auto* cg_range = range.GetCgRange(record_id);
-    if (cg3 == nullptr || cg_range == nullptr) {
+    if (cg3 == nullptr || range.GetCgRange(cg3->RecordId()) == nullptr) {
       break;
     }
 
-- 
2.43.0


From 00858d71d8d2f9ce055e09e84cfd0bb8211e6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 58/82] fix: MDF 3 text range conversions ignored the channel's
 data type

The conversion block of an MDF 3 channel wasn't told the data type of the
channel, so float values used the inclusive upper limit of integer ranges.
---
 mdflib/src/cn3block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 4cd8d0d..deaef1c 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -230,6 +230,7 @@ uint64_t Cn3Block::Read(std::streambuf& buffer) {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
     cc_block_->Read(buffer);
+    cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   }
 
   if (Link(kIndexCe) > 0) {
@@ -509,6 +510,7 @@ IChannelConversion *Cn3Block::CreateChannelConversion() {
   if (!cc_block_) {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
+    cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   }
   return cc_block_.get();
 }
-- 
2.43.0


From b86a9575e3fa6b533f9873830e92c39e994a091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 59/82] fix: start time of MDF 3 files before version 3.20 was
 the time of reading

The header block of the older versions has no time stamp in nanoseconds, only
the local date and time. The time when the header object was created was
returned as start time.
---
 mdflib/src/hd3block.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index c42ca9e..66d94d5 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -99,6 +99,7 @@ void Hd3Block::GetBlockProperty(BlockPropertyList &dest) const {
 uint64_t Hd3Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader3(buffer);
   bytes += ReadLinks3(buffer, 3);
+  bool has_timestamp = false;
   // The for loop handles earlier versions of the MDF file
   for (int ii = 3; bytes < block_size_; ++ii) {
     switch (ii) {
@@ -125,6 +126,7 @@ uint64_t Hd3Block::Read(std::streambuf& buffer) {
         break;
       case 10:
         bytes += ReadNumber(buffer, timestamp_.local_timestamp_);
+        has_timestamp = true;
         break;
       case 11:
         bytes += ReadNumber(buffer, timestamp_.utc_offset_);
@@ -141,6 +143,14 @@ uint64_t Hd3Block::Read(std::streambuf& buffer) {
         break;
     }
   }
+  if (!has_timestamp && timestamp_.date_.size() == 10) {
+    // Versions before 3.20 only have the local date (DD:MM:YYYY) and time.
+    const auto& date = timestamp_.date_;
+    const UtcTimestamp local(date.substr(6) + "-" + date.substr(3, 2) + "-" +
+                             date.substr(0, 2) + "T" + timestamp_.time_ + "Z");
+    timestamp_.local_timestamp_ = local.GetTimeNs();
+    timestamp_.utc_offset_ = 0;
+  }
   comment_ = ReadTx3(buffer, kIndexTx);
 
   if (Link(kIndexPr) > 0) {
-- 
2.43.0


From d0947503a07bf20b3d7ede55295a330303d72331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 60/82] fix: appending to MDF 3 files before version 3.20
 overwrote the next block

The header block of the older versions ends before the time stamp. When the
header was updated, the longer header of version 3.20 was written over it.
---
 mdflib/src/hd3block.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/hd3block.cpp b/mdflib/src/hd3block.cpp
index 66d94d5..4508ac3 100644
--- a/mdflib/src/hd3block.cpp
+++ b/mdflib/src/hd3block.cpp
@@ -181,10 +181,13 @@ uint64_t Hd3Block::Write(std::streambuf& buffer) {
   bytes += WriteStr(buffer, organisation_, 32);
   bytes += WriteStr(buffer, project_, 32);
   bytes += WriteStr(buffer, subject_, 32);
-  bytes += WriteNumber(buffer, timestamp_.local_timestamp_);
-  bytes += WriteNumber(buffer, timestamp_.utc_offset_);
-  bytes += WriteNumber(buffer, timestamp_.time_quality_);
-  bytes += WriteStr(buffer, timestamp_.timer_id_, 32);
+  // The block ends here in files with a version before 3.20
+  if (!update || bytes + 8 + 2 + 2 + 32 <= block_size_) {
+    bytes += WriteNumber(buffer, timestamp_.local_timestamp_);
+    bytes += WriteNumber(buffer, timestamp_.utc_offset_);
+    bytes += WriteNumber(buffer, timestamp_.time_quality_);
+    bytes += WriteStr(buffer, timestamp_.timer_id_, 32);
+  }
 
   if (!update) {
     UpdateBlockSize(buffer, bytes);
-- 
2.43.0


From e6933557bf660cb4094c268cd16a2e09e43e64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 61/82] fix: updating a data group of an MDF 3 file changed its
 record id size

The data group block was updated with the record id size of the own writer
and with 4 reserved bytes which the older versions of the block don't have.
---
 mdflib/src/dg3block.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 258e324..d19676c 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -93,8 +93,8 @@ uint64_t Dg3Block::Write(std::streambuf& buffer) {
   const bool update =
       FilePosition() > 0;  // Write or update the values inside the block
   nof_cg_blocks_ = static_cast<uint16_t>(cg_list_.size());
-  nof_record_id_ = nof_cg_blocks_ > 1 ? 1 : 0;
   if (!update) {
+    nof_record_id_ = nof_cg_blocks_ > 1 ? 1 : 0;
     block_type_ = "DG";
     block_size_ = (2 + 2) + (4 * 4) + 2 + 2 + 4;
     link_list_.resize(4, 0);
@@ -103,8 +103,11 @@ uint64_t Dg3Block::Write(std::streambuf& buffer) {
   uint64_t bytes = update ? MdfBlock::Update(buffer) : MdfBlock::Write(buffer);
   bytes += WriteNumber(buffer, nof_cg_blocks_);
   bytes += WriteNumber(buffer, nof_record_id_);
-  const std::vector<uint8_t> reserved(4, 0);
-  bytes += WriteByte(buffer, reserved);
+  if (!update) {
+    // The older versions don't have these bytes
+    const std::vector<uint8_t> reserved(4, 0);
+    bytes += WriteByte(buffer, reserved);
+  }
 
   if (tr_block_ && Link(kIndexTr) <= 0) {
     tr_block_->Write(buffer);
-- 
2.43.0


From 5ea8d56772210545b878c9525f235fd72afdb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:32 +0000
Subject: [PATCH 62/82] fix: counting the records of an unfinalized file could
 go on forever

Records without any byte and data blocks longer than the file weren't handled
when the number of samples was restored.
---
 mdflib/src/dg4block.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index c5be261..913554a 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -746,9 +746,15 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
   }
 
 
+  // Records are skipped, so the end of a truncated file needs to be known.
+  const auto last_position = GetLastFilePosition(buffer);
+  const uint64_t data_size = dt_block->DataPosition() < last_position ?
+      std::min(dt_block->DataSize(),
+        static_cast<uint64_t>(last_position - dt_block->DataPosition())) : 0;
   SetFilePosition(buffer, dt_block->DataPosition());
   uint64_t count = 0;
-  while (count < dt_block->DataSize()) {
+  while (count < data_size) {
+    const uint64_t start_count = count;
     uint64_t record_id = 0;
     count += ReadRecordId(buffer,record_id);
     auto cg_find = counter_list.size() == 1 ?
@@ -778,9 +784,13 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
       count_bytes += StepFilePosition(buffer, record_size);
     }
+    count += count_bytes;
+    if (count == start_count) {
+      MDF_DEBUG() << "Empty records without record ID. Cannot count the records.";
+      break;
+    }
     ++counter.NofSamples;
     counter.NofBytes += count_bytes;
-    count += count_bytes;
   }
   for (const auto& [record_id_1, counter1] : counter_list) {
     Cg4Block* cg_block = counter1.CgBlock;
-- 
2.43.0


From dc6dc976a5373b3a43e7cba84c4de5bab3a7ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 63/82] fix: exported conversion reference getter returned the
 formula

---
 mdflibrary/src/MdfExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index 14dc970..a807a99 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -658,7 +658,7 @@ EXPORTFEATUREFUNC(void, SetRange, double min, double max) {
 }
 EXPORTFEATUREFUNC(uint16_t, GetFlags) { return conv->Flags(); }
 EXPORTFEATUREFUNC(size_t, GetReference, uint16_t index, char* reference) {
-  if (reference) strcpy(reference, conv->Formula().c_str());
+  if (reference) strcpy(reference, conv->Reference(index).c_str());
   return conv->Reference(index).size();
 }
 EXPORTFEATUREFUNC(void, SetReference, uint16_t index, const char* reference) {
-- 
2.43.0


From 4ddef8a12828b817a712f34d60da233edb6b1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 64/82] fix: exported byte array getter copied the size of the
 buffer instead of the value

---
 mdflibrary/src/MdfExport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index a807a99..964d279 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -765,7 +765,9 @@ EXPORTFEATUREFUNC(bool, GetChannelValueAsArray, uint64_t sample,
                   uint8_t value[], size_t& size) {
   std::vector<uint8_t> vec;
   bool valid = observer->GetChannelValue(sample, vec);
-  if (value != nullptr && size >= vec.size()) memcpy(value, vec.data(), size);
+  if (value != nullptr && size >= vec.size() && !vec.empty()) {
+    memcpy(value, vec.data(), vec.size());
+  }
   size = vec.size();
   return valid;
 }
-- 
2.43.0


From 5d276a17ef030728afd9b688b7353e7cc1824185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:35 +0000
Subject: [PATCH 65/82] fix: a text comment that starts with '<' was lost when
 it was read as a comment object

---
 mdflib/src/mdcomment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/mdcomment.cpp b/mdflib/src/mdcomment.cpp
index 0d5d875..6c800ea 100644
--- a/mdflib/src/mdcomment.cpp
+++ b/mdflib/src/mdcomment.cpp
@@ -238,6 +238,8 @@ void MdComment::FromXml(const std::string& xml_snippet) {
     }
     const bool parse = xml_file->ParseString(xml_snippet);
     if (!parse) {
+      // A TX block may hold a text that starts with a '<' character.
+      Comment(xml_snippet);
       throw std::runtime_error("Failed to parse the XML string.");
     }
     const auto* root_node = xml_file->RootNode();
-- 
2.43.0


From be432cdba8506971d1723b355943ec8718ab34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:01 +0000
Subject: [PATCH 66/82] fix: mdf2csv did not double the quotes inside quoted
 CSV fields

---
 mdf2csv/src/csvwriter.cpp | 23 +++++++++++++++++------
 mdf2csv/src/csvwriter.h   |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index bdb89af..a56c883 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -91,11 +91,11 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       if (count > 0) {
         file_ << delimiter_;
       }
-      file_ << "\"" << channel.Name();
+      std::string text = channel.Name();
       if (!unit.empty()) {
-        file_ << " [" << unit << "]";
+        text += " [" + unit + "]";
       }
-      file_ << "\"";
+      file_ << QuotedText(text);
       ++count;
     }
     file_ << std::endl;
@@ -134,13 +134,24 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
 std::string CsvWriter::CsvText(std::string& csv_text) const {
   for (char input : csv_text) {
     if (input == '\"' || input == delimiter_ || isspace(input)) {
-      std::ostringstream temp;
-      temp << "\"" << csv_text << "\"";
-      return temp.str();
+      return QuotedText(csv_text);
     }
   }
 
   return csv_text;
 }
 
+std::string CsvWriter::QuotedText(const std::string& text) {
+  // A quote inside a quoted CSV field is doubled
+  std::string quoted = "\"";
+  for (char input : text) {
+    if (input == '\"') {
+      quoted += '\"';
+    }
+    quoted += input;
+  }
+  quoted += '\"';
+  return quoted;
+}
+
 } // namespace mdf
\ No newline at end of file
diff --git a/mdf2csv/src/csvwriter.h b/mdf2csv/src/csvwriter.h
index 6ac2f87..301fc63 100644
--- a/mdf2csv/src/csvwriter.h
+++ b/mdf2csv/src/csvwriter.h
@@ -30,6 +30,7 @@ class CsvWriter final {
   char delimiter_ = ';';
 
   std::string CsvText(std::string& csv_text) const;
+  static std::string QuotedText(const std::string& text);
 };
 
 }  // namespace mdf
-- 
2.43.0


From 0b6e48fa62d7b18c805a7b8b6b3efeae3a9c5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:01 +0000
Subject: [PATCH 67/82] fix: mdf2csv lost the CSV file if the temporary
 directory is on another file system

---
 mdf2csv/src/csvwriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index a56c883..53facad 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -117,7 +117,14 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       file_ << std::endl;
     }
     file_.close();
-    std::filesystem::rename(temp_filename_, dest_filename_);
+    std::error_code error;
+    std::filesystem::rename(temp_filename_, dest_filename_, error);
+    if (error) {
+      // The temporary directory may be on another file system
+      std::filesystem::copy_file(temp_filename_, dest_filename_,
+                                 copy_options::overwrite_existing);
+      std::filesystem::remove(temp_filename_);
+    }
   } catch (const std::exception& err) {
     MDF_ERROR() << "File save error. Error: " << err.what();
   }
-- 
2.43.0


From a5c5f41ffee17568698c9be493ebc65bfd7cd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:01 +0000
Subject: [PATCH 68/82] fix: mdf2csv wrote all CSV files beside the first file
 and none for a file in the current directory

---
 mdf2csv/src/createfilelist.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 3adf958..9c75c23 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -70,13 +70,14 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
   const auto& arguments = ProgramArgument::Instance();
   std::string filename;
   std::string stem;
+  std::string output_path = output_path_;
 
   try {
     path fullname(file);
     filename = fullname.filename().string();
     stem = fullname.stem().string();
-    if (output_path_.empty()) {
-      output_path_ = fullname.parent_path().string();
+    if (output_path.empty()) {
+      output_path = absolute(fullname).parent_path().string();
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid file path. Error :" << err.what();
@@ -148,7 +149,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       bool existing; // Check if CSV already exist
       std::string csv_file;
       try {
-        path fullname(output_path_);
+        path fullname(output_path);
         fullname.append(StripName(csv_name.str()));
         fullname.concat(".csv");
         csv_file = fullname.string();
-- 
2.43.0


From a508c3ae1de565e5ecd2a0f67b1a3335cc4ce46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:01 +0000
Subject: [PATCH 69/82] fix: mdf2csv skipped channel groups with the same name
 as another group

---
 mdf2csv/src/createfilelist.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 9c75c23..b41fec6 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -5,6 +5,7 @@
 #include "createfilelist.h"
 #include <iostream>
 #include <filesystem>
+#include <set>
 #include <sstream>
 #include <cctype>
 #include <array>
@@ -108,6 +109,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
     return;
   }
 
+  std::set<std::string> used_names; // CSV names used by this file
   size_t measure_no = 0; // Used to set a unique CSV name.
   for (auto* dg_group : dg_list) {
     if (dg_group == nullptr) {
@@ -145,6 +147,11 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       } else if (cg_list.size() > 1) {
         csv_name << "_" << cg_name;
       }
+      if (!used_names.insert(StripName(csv_name.str())).second) {
+        // Another group in the file has the same name
+        csv_name << "_CG_" << group_no;
+        used_names.insert(StripName(csv_name.str()));
+      }
 
       bool existing; // Check if CSV already exist
       std::string csv_file;
-- 
2.43.0


From 6d6fc76d9d87808076f60350eeb8278deb362dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:47 +0000
Subject: [PATCH 70/82] fix: text of a large integer lost digits if its channel
 has a conversion without effect

---
 include/mdf/ichannelconversion.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index 78259d9..ac47f4b 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -12,6 +12,7 @@
 #include <optional>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 #include <variant>
 
@@ -512,8 +513,13 @@ inline bool IChannelConversion::Convert(const T& channel_value,
 
     case ConversionType::NoConversion:
     default: {
-      eng_value = MdfHelper::FormatDouble(static_cast<double>(channel_value),
-                                          IsDecimalUsed() ? Decimals() : 6);
+      if constexpr (std::is_integral_v<T>) {
+        // A double may not hold all digits of an integer
+        eng_value = std::to_string(channel_value);
+      } else {
+        eng_value = MdfHelper::FormatDouble(static_cast<double>(channel_value),
+                                            IsDecimalUsed() ? Decimals() : 6);
+      }
       valid = true;
       break;
     }
-- 
2.43.0


From 89962957cd2a19bbe0261ed21a5b66bdcc2e07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:22 +0000
Subject: [PATCH 71/82] fix: CANopen date or time of a record as text took
 nanoseconds for milliseconds

---
 mdflib/src/ichannel.cpp | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 9f26d6c..38703a1 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -720,32 +720,16 @@ bool IChannel::GetChannelValue(const std::vector<uint8_t> &record_buffer,
     }
 
     case ChannelDataType::CanOpenDate: {
-      uint64_t ms_since_1970 = 0;
-      valid = GetCanOpenDate(record_buffer, ms_since_1970);
-
-      const auto ms = ms_since_1970 % 1000;
-      const auto time = static_cast<time_t>(ms_since_1970 / 1000);
-      const struct tm *bt = std::localtime(&time);
-
-      std::ostringstream text;
-      text << std::put_time(bt, "%Y-%m-%d %H:%M:%S") << '.' << std::setfill('0')
-           << std::setw(3) << ms;
-      dest = text.str();
+      uint64_t ns_since_1970 = 0;
+      valid = GetCanOpenDate(record_buffer, ns_since_1970);
+      dest = MdfHelper::NsToLocalIsoTime(ns_since_1970);
       break;
     }
 
     case ChannelDataType::CanOpenTime: {
-      uint64_t ms_since_1970 = 0;
-      valid = GetCanOpenTime(record_buffer, ms_since_1970);
-
-      const auto ms = ms_since_1970 % 1000;
-      const auto time = static_cast<time_t>(ms_since_1970 / 1000);
-      const struct tm *bt = std::localtime(&time);
-
-      std::ostringstream text;
-      text << std::put_time(bt, "%Y-%m-%d %H:%M:%S") << '.' << std::setfill('0')
-           << std::setw(3) << ms;
-      dest = text.str();
+      uint64_t ns_since_1970 = 0;
+      valid = GetCanOpenTime(record_buffer, ns_since_1970);
+      dest = MdfHelper::NsToLocalIsoTime(ns_since_1970);
       break;
     }
 
-- 
2.43.0


From 5cbe291c924fd0af87a60466409b9b2f92f8411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 72/82] fix: names and descriptions of units, physical
 dimensions and computation methods were lost on read

---
 mdflib/src/hocompumethod.cpp       | 1 +
 mdflib/src/hophysicaldimension.cpp | 1 +
 mdflib/src/hounit.cpp              | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mdflib/src/hocompumethod.cpp b/mdflib/src/hocompumethod.cpp
index a5e7f65..35a8d10 100644
--- a/mdflib/src/hocompumethod.cpp
+++ b/mdflib/src/hocompumethod.cpp
@@ -142,6 +142,7 @@ void HoCompuMethod::ToXml(IXmlNode& root_node) const {
 void HoCompuMethod::FromXml(const IXmlNode& root_node) {
   IXmlNode::ChildList node_list;
   root_node.GetChildList(node_list);
+  HoNameDetails::FromXml(root_node); // Written directly below the node
   for (const IXmlNode* node : node_list) {
     if (node == nullptr) {
       continue;
diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 3b80fb5..524d798 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -106,6 +106,7 @@ void HoPhysicalDimension::ToXml(IXmlNode& root_node) const {
 void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
   IXmlNode::ChildList node_list;
   dim_node.GetChildList(node_list);
+  HoNameDetails::FromXml(dim_node); // Written directly below the node
   identity_ = dim_node.Attribute<std::string>("ID", "");
   for (const IXmlNode* node : node_list) {
     if (node == nullptr) {
diff --git a/mdflib/src/hounit.cpp b/mdflib/src/hounit.cpp
index bd39cd7..ab666e0 100644
--- a/mdflib/src/hounit.cpp
+++ b/mdflib/src/hounit.cpp
@@ -77,6 +77,7 @@ void HoUnit::FromXml(const IXmlNode& unit_node) {
 
   IXmlNode::ChildList node_list;
   unit_node.GetChildList(node_list);
+  HoNameDetails::FromXml(unit_node); // Written directly below the node
   for (const IXmlNode* node : node_list) {
     if (node == nullptr) {
       continue;
-- 
2.43.0


From 6e7c78458afecf3541cb0c43295eaef63c951b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 73/82] fix: molar amount and luminous intensity exponents of a
 physical dimension were lost on read

---
 mdflib/src/hophysicaldimension.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 524d798..fcb88e5 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -124,9 +124,11 @@ void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
       current_exp_ = node->Value<double>();
     } else if (node->IsTagName("TEMPERATURE-EXP")) {
       temp_exp_ = node->Value<double>();
-    } else if (node->IsTagName("MOLAR-EXP")) {
+    } else if (node->IsTagName("MOLAR-AMOUNT-EXP") ||
+               node->IsTagName("MOLAR-EXP")) {
       molar_exp_ = node->Value<double>();
-    } else if (node->IsTagName("LUMINOUS-EXP")) {
+    } else if (node->IsTagName("LUMINOUS-INTENSITY-EXP") ||
+               node->IsTagName("LUMINOUS-EXP")) {
       luminous_exp_ = node->Value<double>();
     }
   }
-- 
2.43.0


From d92df66e63aae6106b546d8a1735de73ade19664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:34 +0000
Subject: [PATCH 74/82] fix: array indexes of a formula variable were lost on
 read

---
 mdflib/src/mdvariable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..a01e1d1 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -143,7 +143,9 @@ void MdVariable::FromXml(const IXmlNode& var_node) {
   try {
     std::ostringstream temp;
     for (const char input : idx_list) {
-      if (iswspace(input)) {
+      if (!iswspace(input)) {
+        temp << input;
+      } else if (!temp.str().empty()) {
         const uint64_t idx = std::stoull(temp.str());
         AddArrayIndex(idx);
         temp.clear();
-- 
2.43.0


From 63580f251151de69ceaf45d43e1fb2b5ec169ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:51 +0000
Subject: [PATCH 75/82] fix: names of integer data types were misspelled and
 StringToHoRoleType could not be linked

---
 include/mdf/hoenumerates.h  | 2 +-
 mdflib/src/hoenumerates.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdf/hoenumerates.h b/include/mdf/hoenumerates.h
index 432972e..fab6f7e 100644
--- a/include/mdf/hoenumerates.h
+++ b/include/mdf/hoenumerates.h
@@ -101,7 +101,7 @@ enum class HoRoleType : size_t {
 };
 
 std::string_view HoRoleTypeToString(HoRoleType role);
-HoRoleType StringToHoRoleTYpe(const std::string& role);
+HoRoleType StringToHoRoleType(const std::string& role);
 
 enum class HoComputationMethodCategory : size_t {
   Identical = 0,
diff --git a/mdflib/src/hoenumerates.cpp b/mdflib/src/hoenumerates.cpp
index 0c41c1e..30a28b5 100644
--- a/mdflib/src/hoenumerates.cpp
+++ b/mdflib/src/hoenumerates.cpp
@@ -11,8 +11,8 @@
 namespace {
 
 constexpr std::array<std::string_view, 15> kDataTypeList = {
-    "A_UNIT8", "A_INT8", "A_UINT16", "A_UNIT16",
-    "A_UNIT32", "A_INT32", "A_UINT64", "A_UNIT64",
+    "A_UINT8", "A_INT8", "A_UINT16", "A_INT16",
+    "A_UINT32", "A_INT32", "A_UINT64", "A_INT64",
     "A_FLOAT32", "A_FLOAT64", "A_ASCIISTRING", "A_UNICODE2STRING",
     "A_BYTEFIELD", "A_BITFIELD", "OTHER"
 };
-- 
2.43.0


From 0ac8840a8a975d22604e7b91e06e8c35477cd712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:33 +0000
Subject: [PATCH 76/82] fix: sample time of a sample record observer was the
 base time

---
 include/mdf/samplerecordobserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdf/samplerecordobserver.h b/include/mdf/samplerecordobserver.h
index 8d6c02e..6267e34 100644
--- a/include/mdf/samplerecordobserver.h
+++ b/include/mdf/samplerecordobserver.h
@@ -24,7 +24,7 @@ public:
   virtual void OnSampleRecord() = 0;
 
   uint64_t GetBaseTime() const { return base_time_; }
-  uint64_t GetSampleTime() const { return base_time_; }
+  uint64_t GetSampleTime() const { return sample_time_; }
   uint64_t GetSampleIndex() const;
   void GetSampleRecord(SampleRecord& sample_record);
   const IChannelGroup& GetChannelGroup() const {
-- 
2.43.0


From 681d99bcd9cdbaa5419db2646eb4b26255c82e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:29 +0000
Subject: [PATCH 77/82] fix: CanMessage::Reset() kept the CRC and the time of
 the earlier message

---
 mdflib/src/canmessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/canmessage.cpp b/mdflib/src/canmessage.cpp
index 0ce326e..b83dd29 100644
--- a/mdflib/src/canmessage.cpp
+++ b/mdflib/src/canmessage.cpp
@@ -373,6 +373,7 @@ void CanMessage::ToRaw( MessageType msg_type, SampleRecord& sample,
 }
 
 void CanMessage::Reset() {
+  timestamp_ = 0.0;
   bus_channel_ = 0;
   message_id_ = 0;
   dlc_ = 0;
@@ -382,6 +383,7 @@ void CanMessage::Reset() {
   bit_position_ = 0;
   error_type_ = CanErrorType::UNKNOWN_ERROR;
   frame_duration_ = 0;
+  crc_ = 0;
   data_group_ = nullptr;
   channel_group_ = nullptr;
 }
-- 
2.43.0


From cd6c8d256813276ea2c57e3eb005569ec21773a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:37 +0000
Subject: [PATCH 78/82] fix: EthMessage::Reset() kept the direction and error
 type of the earlier message

---
 mdflib/src/ethmessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/ethmessage.cpp b/mdflib/src/ethmessage.cpp
index 951cffa..23be3a1 100644
--- a/mdflib/src/ethmessage.cpp
+++ b/mdflib/src/ethmessage.cpp
@@ -24,6 +24,8 @@ void EthMessage::DataBytes(const std::vector<uint8_t>& data) {
 
 void EthMessage::Reset() {
   bus_channel_ = 0;
+  dir_ = false;
+  error_type_ = EthErrorType::Unknown;
   source_ = {};
   destination_ = {};
   eth_type_ = 0x0800; ///< IPv4 as default
-- 
2.43.0


From ef28dd3677eb703f74151bd19c629663f51677a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:57 +0000
Subject: [PATCH 79/82] fix: invalidation bytes of sample reductions stored
 apart from their values (RI) were not read

---
 mdflib/src/ld4block.cpp |  7 ++++++-
 mdflib/src/sr4block.cpp | 21 ++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mdflib/src/ld4block.cpp b/mdflib/src/ld4block.cpp
index 1ce312f..24354eb 100644
--- a/mdflib/src/ld4block.cpp
+++ b/mdflib/src/ld4block.cpp
@@ -100,7 +100,12 @@ uint64_t Ld4Block::Read(std::streambuf& buffer) {
       distance_values_.push_back(value);
     }
   }
-  ReadLinkList(buffer, kIndexData, nof_blocks_);
+  // The data links are followed by one link to invalidation data per data block
+  const bool invalid_data = (flags_ & Ld4Flags::InvalidData) != 0 &&
+                            link_list_.size() > nof_blocks_ + size_t{kIndexData};
+  ReadLinkList(buffer, kIndexData,
+               invalid_data ? static_cast<uint32_t>(link_list_.size() - kIndexData)
+                            : nof_blocks_);
   return bytes;
 }
 }  // namespace mdf::detail
diff --git a/mdflib/src/sr4block.cpp b/mdflib/src/sr4block.cpp
index d808327..5e0a3d9 100644
--- a/mdflib/src/sr4block.cpp
+++ b/mdflib/src/sr4block.cpp
@@ -5,6 +5,7 @@
 #include "sr4block.h"
 #include "datablock.h"
 #include "cg4block.h"
+#include "dz4block.h"
 
 namespace {
 
@@ -133,16 +134,18 @@ void Sr4Block::ReadData(std::streambuf& buffer) const {
     return;
   }
 
-    // The block list should only contain one block.
-    // A SD block is uncompressed data block
+  // The values (RD or RV) are stored first and the invalidation bytes (RI),
+  // if they are stored in separate blocks, after all the values.
+  std::vector<DataBlock*> data_block_list;
+  GetDataBlockList(data_block_list);
   uint64_t index = 0;
-  for (const auto &block : block_list_) {
-    const auto *list = dynamic_cast<const DataListBlock *>(block.get());
-    const auto *data = dynamic_cast<const DataBlock *>(block.get());
-    if (list != nullptr) {
-      list->CopyDataToBuffer( buffer, data_list_, index);
-    } else if (block != nullptr) {
-      data->CopyDataToBuffer(buffer, data_list_, index);
+  for (const bool invalid_bytes : {false, true}) {
+    for (const auto* data : data_block_list) {
+      const auto* dz4 = dynamic_cast<const Dz4Block*>(data);
+      const std::string type = dz4 != nullptr ? dz4->OrigBlockType() : data->BlockType();
+      if ((type == "RI") == invalid_bytes) {
+        data->CopyDataToBuffer(buffer, data_list_, index);
+      }
     }
   }
 }
-- 
2.43.0


From f169fe08b08d2ba662c6771201b592c0596ca2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 80/82] fix: an invalid creator index in a comment was not
 ignored but thrown as an exception

---
 mdflib/src/mdnumber.cpp            | 2 +-
 mdflib/src/mdstandardattribute.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index 5a4a3d5..208df17 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -201,7 +201,7 @@ void MdNumber::FromXml(const IXmlNode& number_node) {
     if (key == "ci" && !value.empty()) {
       try {
         ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
diff --git a/mdflib/src/mdstandardattribute.cpp b/mdflib/src/mdstandardattribute.cpp
index 57735ea..b7b1296 100644
--- a/mdflib/src/mdstandardattribute.cpp
+++ b/mdflib/src/mdstandardattribute.cpp
@@ -91,7 +91,7 @@ void MdStandardAttribute::FromXml(const IXmlNode& node) {
     if (key == "ci" && !value.empty()) {
       try {
         ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
-- 
2.43.0


From 154907911baf729291b80c32e228bacb5acdae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:14 +0000
Subject: [PATCH 81/82] fix: attributes of properties, lists and names read
 from XML were kept as custom attributes, hex values not read

---
 mdflib/src/mdalternativename.cpp | 1 +
 mdflib/src/mdlist.cpp            | 4 ++++
 mdflib/src/mdproperty.cpp        | 6 ++++++
 3 files changed, 11 insertions(+)

diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index a46bcec..45ef704 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -119,6 +119,7 @@ void MdAlternativeName::ToXml(IXmlNode& names_node) const {
 
 void MdAlternativeName::FromXml(const IXmlNode& names_node) {
   MdStandardAttribute::FromXml(names_node);
+  CustomAttributes().erase("name");
   default_name_ = names_node.Attribute<std::string>("name", "");
 
   IXmlNode::ChildList node_list;
diff --git a/mdflib/src/mdlist.cpp b/mdflib/src/mdlist.cpp
index ec479ca..3b1258d 100644
--- a/mdflib/src/mdlist.cpp
+++ b/mdflib/src/mdlist.cpp
@@ -266,6 +266,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
   const std::string tag_name = root_node.TagName();
   if (tag_name != "common_properties" && tag_name != "li") {
     MdStandardAttribute::FromXml(root_node);
+    CustomAttributes().erase("name");
+    CustomAttributes().erase("desc");
     name_ = root_node.Attribute<std::string>("name", "");
     desc_ = root_node.Attribute<std::string>("desc", "");
   }
@@ -286,6 +288,8 @@ void MdList::FromXml(const IXmlNode& root_node) {
     } else if (node->IsTagName("list")) {
       MdList list;
       list.MdStandardAttribute::FromXml(*node);
+      list.CustomAttributes().erase("name");
+      list.CustomAttributes().erase("desc");
       list.Name(node->Attribute<std::string>("name", "") );
       list.Description( node->Attribute<std::string>("desc", ""));
 
diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index daa8c79..67c9490 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -142,6 +142,11 @@ void MdProperty::Name(std::string name) {
 
   void MdProperty::FromXml(const IXmlNode& prop_node) {
     MdStandardAttribute::FromXml(prop_node);
+    // The attributes below are members and shouldn't be handled as custom
+    // attributes as well.
+    for (const char* key : {"name", "desc", "type", "ro", "unit", "unit_ref"}) {
+      CustomAttributes().erase(key);
+    }
     name_ = prop_node.Attribute<std::string>("name", "");
     desc_ = prop_node.Attribute<std::string>("desc", "");
     const std::string type = prop_node.Attribute<std::string>("type", "");
@@ -219,6 +224,7 @@ void MdProperty::Name(std::string name) {
     try {
       switch (DataType()) {
         case MdDataType::MdInteger:
+        case MdDataType::MdHex:
           if (value_.size() > 2 && value_.substr(0,2) == "0x" ) {
             // HEX decode
             const auto hex_value = value_.substr(2);
-- 
2.43.0


From 4bb352ffb6d12e806c1755b7f88f53ac459c9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:31 +0000
Subject: [PATCH 82/82] fix: a bus log added after one without messages was put
 in the stored data group and lost

---
 mdflib/src/mdfwriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 366e64a..6f3879f 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -380,9 +380,10 @@ bool MdfWriter::CreateBusLogConfiguration() {
     return false;
   }
 
-  // 1. Create new DG block if not already exists
+  // 1. Create new DG block if not already exists. Note that a DG block that is
+  // already stored in the file, cannot be extended with more CG blocks.
   auto* last_dg = header->LastDataGroup();
-  if (last_dg == nullptr || !last_dg->IsEmpty()) {
+  if (last_dg == nullptr || !last_dg->IsEmpty() || last_dg->Index() > 0) {
     last_dg = header->CreateDataGroup();
   }
   if (last_dg == nullptr) {
-- 
2.43.0

