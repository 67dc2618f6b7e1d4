From 233665754d0f314b1e86bb078c4557f7d8f7e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 01/34] fix: flush the last partial group of data stream 0 at
 end of input

---
 src/channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..7309c35 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -145,7 +145,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
 
 // Process any remaining data
 void Channel::flush() {
-  for (std::size_t i = 1; i < block_stream_.size(); ++i) {
+  for (std::size_t i = 0; i < block_stream_.size(); ++i) {
     const Group remaining_group = block_stream_[i].flushCurrentGroup();
     if (!remaining_group.isEmpty())
       processGroup(remaining_group, i);
-- 
2.43.0


From 5937caea06b8de450248476c30b3a285a5180386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 02/34] fix: use all parts of 3- and 4-group TMC messages

---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..181ce57 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From 998e51da416ec2d8852d7f39257b086542eac8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 03/34] fix: don't split multi-byte characters at the edges of
 RT+ tags

---
 src/text/rdsstring.hh | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..e69aa44 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,18 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
-    nbyte++;
+  std::size_t nbyte{byte_start + 1};
 
-    if (nbyte >= str.length())
-      return 0;
+  // Include the continuation bytes
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+    nbyte++;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 6b9495bac5096731b47cc1e81875b25421ba39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 04/34] fix: report RT+ tags that extend to the last character
 of the text

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From 2378d0926525c3a00fa8638f3934203df9b0b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 05/34] fix: don't count characters cut off by a shrinking text
 buffer as received

---
 src/text/rdsstring.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 4317cb1..346c183 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -125,6 +125,7 @@ bool RDSString::hasPreviouslyReceivedTerminators() const {
 
 void RDSString::resize(std::size_t n) {
   data_.resize(n, kBlankSpace);
+  sequential_length_ = std::min(sequential_length_, n);
 }
 
 void RDSString::setEncoding(Encoding encoding) {
-- 
2.43.0


From c3077b98e519508c06b64b3eb145941767f03004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 06/34] fix: don't store eRT characters from a block that was
 not received

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..40814e7 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1250,7 +1250,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From 7ba40df642329c5fcb1779e4e66a36e98db436a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:58 +0000
Subject: [PATCH 07/34] fix: don't truncate Enhanced RadioText at 64 bytes

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 40814e7..ce6fb05 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1250,6 +1250,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
+  // Maximum length of eRT is 128 bytes
+  ert_.text.resize(128);
+
   if (group.has(BLOCK3)) {
     ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
   }
-- 
2.43.0


From fbd769ce768c8c5fc0d593275a5a9f71e07c9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 08/34] fix: don't print transparent data from blocks that were
 not received

---
 src/groups.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index ce6fb05..814bd93 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -804,6 +804,10 @@ void Station::decodeType4A(const Group& group) {
 
 // Group 5: Transparent data channels
 void Station::decodeType5(const Group& group) {
+  if (!group.has(BLOCK4) ||
+      (group.getType().version == GroupType::Version::A && !group.has(BLOCK3)))
+    return;
+
   const auto address                   = getBits<5>(group.get(BLOCK2), 0);
   json_["transparent_data"]["address"] = address;
 
-- 
2.43.0


From b9b9f72e4970539b724685633f127239d1ce78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 09/34] fix: don't print DAB cross-references from blocks that
 were not received

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 814bd93..e09aadd 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1272,6 +1272,9 @@ void Station::parseEnhancedRT(const Group& group) {
 
 // ETSI EN 301 700 V1.1.1 (2000-03)
 void Station::parseDAB(const Group& group) {
+  if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+    return;
+
   const bool es_flag = getBool(group.get(BLOCK2), 4);
 
   if (es_flag) {
-- 
2.43.0


From f359e62c24ffcd02686e983febb45e1d1ee5bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 10/34] fix: treat blocks missing from the end of a hex line as
 not received

---
 src/io/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..dee6f7b 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -215,7 +215,7 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From 15d610befa6bb3e27bafd6decd13956a456926d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 11/34] fix: don't deduce the group type from a TEF6686 block
 marked as erroneous

---
 src/io/input.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dee6f7b..9e3c726 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -289,9 +289,12 @@ Group readTEFGroup(const Options& options) {
         blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
         blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
 
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From a9e5f43b71c93e87a691c06334aa844a30a29eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 12/34] fix: check only the block's own error bits in TEF6686
 input

---
 src/io/input.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 9e3c726..224b9ab 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -285,9 +285,9 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0b11U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0b11U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0b11U) == 0;
 
         if (blocks[0].is_received)
           group.setBlock(BLOCK2, blocks[0]);
-- 
2.43.0


From 5875f015a68b668d7c63a99eed5adfd2bd4b1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 13/34] fix: forget the previous RFT file size when the new one
 is too large

---
 src/rft.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rft.hh b/src/rft.hh
index 0f011ba..3955ba2 100644
--- a/src/rft.hh
+++ b/src/rft.hh
@@ -81,11 +81,10 @@ class RFTFile {
  public:
   RFTFile() = default;
 
-  // \note Does nothing if size is too large
+  // \note If size is too large, the file can't be received at all
   void setSize(std::uint32_t size) {
     constexpr std::uint32_t kMaxSize = kMaxNumSegments * sizeof(RFTSegment);
-    if (size <= kMaxSize)
-      expected_size_bytes_ = size;
+    expected_size_bytes_             = (size <= kMaxSize ? size : 0);
   }
 
   void clear() {
-- 
2.43.0


From 48ed709c0cdc1e00fca9c6d9451fd5b207e6066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 14/34] fix: don't echo an extra byte at the end of ASCII bits
 input

---
 src/io/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 224b9ab..7844ee2 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -166,7 +166,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
-- 
2.43.0


From cc94d45fe7d8ef248ac127a8d5d1faa5ac0fdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 15/34] fix: don't decode a made-up bit at the end of ASCII
 bits input

---
 src/redsea.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..67f98ea 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -170,7 +170,9 @@ int processASCIIBitsInput(const Options& options) {
   AsciiBitReader ascii_reader(options);
 
   while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+    const bool bit = ascii_reader.readBit();
+    if (!ascii_reader.eof())
+      channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From f70adc1ce425b7bc00a1a3b99ae4579eddf0db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 16/34] fix: separate the channels also in the last chunk of a
 multi-channel MPX signal

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 7844ee2..10a4735 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From f63abe814b76dc8436ae2c815bf1cff1c00abc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 17/34] fix: keep group timestamps monotonic also for bits,
 hex, and TEF6686 input

---
 src/channel.cc  | 2 +-
 src/io/input.cc | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 7309c35..9968b18 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -108,7 +108,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
     if (now < last_group_rx_time_) {
       group.setTime(last_group_rx_time_);
     }
-    last_group_rx_time_ = now;
+    last_group_rx_time_ = group.getRxTime();
   }
 
   if (options_.bler) {
diff --git a/src/io/input.cc b/src/io/input.cc
index 10a4735..10bd463 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -240,9 +240,6 @@ Group readHexGroup(const Options& options) {
     }
   }
 
-  if (options.timestamp)
-    group.setTime(std::chrono::system_clock::now());
-
   return group;
 }
 
-- 
2.43.0


From 944b8626250ec39947751d93d24b2041eed6a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:36 +0000
Subject: [PATCH 18/34] fix: echo the PCM signal unchanged in feed-through mode

---
 src/io/input.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 10bd463..43de2c2 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -122,8 +122,14 @@ void MPXReader::fillBuffer() {
 
   buffer_.used_size = static_cast<size_t>(num_read_);
 
-  if (feed_thru_)
-    sf_write_float(outfile_, buffer_.data.data(), num_read_);
+  if (feed_thru_) {
+    // The scale of sf_write_float() doesn't match that of sf_read_float()
+    std::array<std::int16_t, kInputChunkSize> pcm{};
+    for (sf_count_t i = 0; i < num_read_; i++) {
+      pcm[i] = static_cast<std::int16_t>(std::lround(buffer_.data[i] * 32768.f));
+    }
+    sf_write_short(outfile_, pcm.data(), num_read_);
+  }
 }
 
 // @throws logic_error if channel is out-of-bounds
-- 
2.43.0


From befa1e30a5d00c4377fb85ef45cb5c756c18b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 19/34] fix: pass the reception time along with separated MPX
 channels

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 43de2c2..f60e024 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -142,7 +142,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From 32e045b32ed76424dbb6f2ce14bbddd1c813fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 20/34] fix: decode group 15B from block 4 when block 2 was
 lost

---
 src/groups.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index e09aadd..62ab4da 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -159,6 +159,9 @@ std::uint32_t Group::getDataStream() const {
 void Group::setBlock(eBlockNumber block_num, Block block) {
   blocks_[block_num] = block;
 
+  if (block.offset == Offset::Cprime)
+    has_c_prime_ = true;
+
   if (has_type_)
     return;
 
@@ -1026,8 +1029,8 @@ void Station::decodeType15A(const Group& group) {
 /* Group 15B: Fast basic tuning and switching information */
 void Station::decodeType15B(const Group& group) {
   const auto block_num                = group.has(BLOCK2) ? BLOCK2 : BLOCK4;
-  const std::uint16_t segment_address = getBits<2>(group.get(BLOCK2), 0);
-  const bool is_di                    = getBool(group.get(BLOCK2), 2);
+  const std::uint16_t segment_address = getBits<2>(group.get(block_num), 0);
+  const bool is_di                    = getBool(group.get(block_num), 2);
 
   json_["di"][getDICodeString(segment_address)] = is_di;
   json_["ta"]                                   = getBool(group.get(block_num), 4);
-- 
2.43.0


From e5094a85d0976c9a9f440d13ffa2c2fa89fe96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 21/34] fix: print TMC tuning frequencies also when the length
 of the list is not transmitted

---
 src/tmc/tmc.cc | 13 +++++--------
 src/tmc/tmc.hh |  1 -
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 181ce57..9cc1db8 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -542,19 +542,16 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
 
       case 6: {
         const std::uint16_t on_pi = z;
-        if (other_network_freqs_.find(on_pi) == other_network_freqs_.end())
-          other_network_freqs_.insert({on_pi, AltFreqList()});
-
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 8));
-        other_network_freqs_.at(on_pi).insert(getUint8(y, 0));
 
         /* Here, the alternative frequencies are printed out right away -
            DKULTUR, for example, does not transmit information about the total
            length of the list */
         (*jsonroot)["tmc"]["other_network"]["pi"] = getPrefixedHexString<4>(on_pi);
-        for (const int frequency : other_network_freqs_.at(on_pi).getRawList())
-          (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency);
-        other_network_freqs_.clear();
+        for (const std::uint16_t af_code : {getUint8(y, 8), getUint8(y, 0)}) {
+          const CarrierFrequency frequency(af_code);
+          if (frequency.isValid())
+            (*jsonroot)["tmc"]["other_network"]["frequencies_khz"].push_back(frequency.kHz());
+        }
         break;
       }
 
diff --git a/src/tmc/tmc.hh b/src/tmc/tmc.hh
index c0ba0a3..ecc8554 100644
--- a/src/tmc/tmc.hh
+++ b/src/tmc/tmc.hh
@@ -184,7 +184,6 @@ class TMCService {
   Message message_;
   std::map<std::uint16_t, ServiceKey> service_key_table_;
   RDSString ps_;
-  std::map<std::uint16_t, AltFreqList> other_network_freqs_;
 };
 
 }  // namespace tmc
-- 
2.43.0


From c15737395b27f554156cab34ccaf18e092c78e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:44 +0000
Subject: [PATCH 22/34] fix: make clock-time independent of the host's time
 zone

---
 src/groups.cc | 72 +++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 62ab4da..63cfaff 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -740,45 +740,51 @@ void Station::decodeType4A(const Group& group) {
   if (!(group.has(BLOCK3) && group.has(BLOCK4)))
     return;
 
-  const double modified_julian_date{
+  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
+  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
+
+  const double local_offset =
+      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
+
+  // Local time of day in minutes, relative to 00:00 UTC of the transmitted date. The host's
+  // own time zone must play no part in this.
+  const int minutes_per_day = 24 * 60;
+  int local_minutes         = static_cast<int>(hour_utc) * 60 + static_cast<int>(minute_utc) +
+                      static_cast<int>(local_offset * 60.0);
+  int day_shift             = 0;
+  while (local_minutes < 0) {
+    local_minutes += minutes_per_day;
+    day_shift--;
+  }
+  while (local_minutes >= minutes_per_day) {
+    local_minutes -= minutes_per_day;
+    day_shift++;
+  }
+
+  const double modified_julian_date_utc{
       static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1))};
+  const double modified_julian_date{modified_julian_date_utc + day_shift};
 
   // Would result in negative years/months
-  if (modified_julian_date < 15079.0) {
+  if (modified_julian_date_utc < 15079.0 || modified_julian_date < 15079.0) {
     json_["debug"].push_back("invalid date/time");
     return;
   }
 
-  int year_utc = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
-  int month_utc =
-      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year_utc * 365.25)) / 30.6001);
-  const int day_utc =
-      static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year_utc * 365.25) -
-                       std::trunc(month_utc * 30.6001));
-  if (month_utc == 14 || month_utc == 15) {
-    year_utc += 1;
-    month_utc -= 12;
+  int year = static_cast<int>((modified_julian_date - 15078.2) / 365.25);
+  int month =
+      static_cast<int>((modified_julian_date - 14956.1 - std::trunc(year * 365.25)) / 30.6001);
+  const int day = static_cast<int>(modified_julian_date - 14956.0 - std::trunc(year * 365.25) -
+                                   std::trunc(month * 30.6001));
+  if (month == 14 || month == 15) {
+    year += 1;
+    month -= 12;
   }
-  year_utc += 1900;
-  month_utc -= 1;
-
-  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
-  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
-
-  const double local_offset =
-      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
-
-  std::tm utc_plus_offset_tm{};
-  utc_plus_offset_tm.tm_year  = year_utc - 1900;
-  utc_plus_offset_tm.tm_mon   = month_utc - 1;
-  utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
-  utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
-  utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
-  utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
+  year += 1900;
+  month -= 1;
 
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  const int hour   = local_minutes / 60;
+  const int minute = local_minutes % 60;
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
@@ -789,13 +795,11 @@ void Station::decodeType4A(const Group& group) {
 
     if (local_offset_hour == 0 && local_offset_min == 0) {
       static_cast<void>(std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00Z",
-                                      local_tm->tm_year + 1900, local_tm->tm_mon + 1,
-                                      local_tm->tm_mday, local_tm->tm_hour, local_tm->tm_min));
+                                      year, month, day, hour, minute));
     } else {
       static_cast<void>(
           std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00%s%02d:%02d",
-                        local_tm->tm_year + 1900, local_tm->tm_mon + 1, local_tm->tm_mday,
-                        local_tm->tm_hour, local_tm->tm_min, local_offset > 0 ? "+" : "-",
+                        year, month, day, hour, minute, local_offset > 0 ? "+" : "-",
                         local_offset_hour, std::abs(local_offset_min)));
     }
     clock_time_         = std::string(buffer.data());
-- 
2.43.0


From ec14c3fe1f867d7854754defb438e3dbb25759c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:16 +0000
Subject: [PATCH 23/34] fix: don't add a newline to fed-through text input

---
 src/io/input.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index f60e024..b944384 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -197,8 +197,11 @@ Group readHexGroup(const Options& options) {
   while (!(group_complete || std::cin.eof())) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.length() < 16)
       continue;
@@ -258,8 +261,11 @@ Group readTEFGroup(const Options& options) {
   while (!std::cin.eof()) {
     std::string line;
     std::getline(std::cin, line);
-    if (options.feed_thru)
-      std::cout << line << '\n';
+    if (options.feed_thru) {
+      std::cout << line;
+      if (!std::cin.eof())
+        std::cout << '\n';
+    }
 
     if (line.substr(0, 1) == "P") {
       // Lines starting with 'P' contain the PI code
-- 
2.43.0


From 5c2eb94916b202f5c3237547ec24f99d44f7c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 24/34] fix: keep location table points whose road is not in
 the table

---
 src/tmc/locationdb.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..2d8a0d5 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -143,9 +143,7 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
         point.road_name = locdb.names[rnid];
 
       if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
-        point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
+        point.roa_lcd = locdb.segments.at(point.seg_lcd).roa_lcd;
       }
 
       locdb.points[point.lcd] = point;
-- 
2.43.0


From 863224aafcb7d0169bcef7483285b535dfa81610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 25/34] fix: follow location chains from points with a
 neighbour on one side only

---
 src/tmc/locationdb.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 2d8a0d5..25cc9f5 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -156,8 +156,13 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   for (const CSVRow& row : table.rows) {
     try {
       const auto lcd = get_uint16(table, row, "LCD");
-      const auto neg = get_uint16(table, row, "NEG_OFF_LCD");
-      const auto pos = get_uint16(table, row, "POS_OFF_LCD");
+      // The first and last points of a road have no neighbour on one side
+      const auto neg = row_contains(table, row, "NEG_OFF_LCD")
+                           ? get_uint16(table, row, "NEG_OFF_LCD")
+                           : static_cast<std::uint16_t>(0);
+      const auto pos = row_contains(table, row, "POS_OFF_LCD")
+                           ? get_uint16(table, row, "POS_OFF_LCD")
+                           : static_cast<std::uint16_t>(0);
       if (locdb.points.find(lcd) != locdb.points.end()) {
         locdb.points[lcd].neg_off = neg;
         locdb.points[lcd].pos_off = pos;
-- 
2.43.0


From 2fef2c72d158633f5d41f1cdcef893703bfbbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:22 +0000
Subject: [PATCH 26/34] fix: don't abort at sample rates from 34.2 to 40 MHz

The options accept up to 40 MHz, which liquid's resampler can do, but
Resampler::setRatio() had a stricter limit and the exception was not caught.
---
 src/dsp/liquid_wrappers.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..7bf8d08 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -32,6 +32,8 @@ extern "C" {
 }
 #pragma clang diagnostic pop
 
+#include "src/constants.hh"
+
 namespace liquid {
 
 void AGC::init(float bw, float initial_gain) {
@@ -220,7 +222,7 @@ Resampler::Resampler(std::uint32_t length)
 
 void Resampler::setRatio(float ratio) {
   // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  if (ratio < redsea::kLiquidMinimumResamplerRatio || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From 21d74e32a1f883106c657ed987c185bdd628b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:23 +0000
Subject: [PATCH 27/34] fix: no JSON line about location tables in hex output

---
 src/tmc/tmc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 9cc1db8..838670b 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -448,6 +448,9 @@ TMCService::TMCService(const Options& options)
     for (const std::string& loctable_dir : options.loctable_dirs) {
       const auto ltn            = readLTN(loctable_dir);
       g_location_databases[ltn] = loadLocationDatabase(loctable_dir);
+      // This info is JSON
+      if (options.output_type != OutputType::JSON)
+        continue;
       if (options.feed_thru)
         std::cerr << g_location_databases[ltn];
       else
-- 
2.43.0


From 28272068eb7745418747cdbdc4e70a449cdfcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:30 +0000
Subject: [PATCH 28/34] fix: refuse channel counts that wrap around to a valid
 number

-c 4294967297 was taken as 1 channel.
---
 src/options.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..816519d 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const auto num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From 4d5790ac919b4f9e2ce122ddbff949f445d132e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:44 +0000
Subject: [PATCH 29/34] fix: recover from digital silence in the MPX input

After half a second of zero samples the gain of the AGC is at its maximum. When a
signal then arrives, the gain collapses (to 1e-25 or so) and liquid's AGC gets stuck
at a level where it doesn't adapt any more, so nothing was decoded from then on.
---
 src/dsp/liquid_wrappers.cc | 10 ++++++++++
 src/dsp/liquid_wrappers.hh |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 7bf8d08..66f99b4 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -42,6 +42,7 @@ void AGC::init(float bw, float initial_gain) {
   object_ = agc_crcf_create();
   agc_crcf_set_bandwidth(object_, bw);
   agc_crcf_set_gain(object_, initial_gain);
+  initial_gain_ = initial_gain;
 }
 
 AGC::~AGC() {
@@ -52,6 +53,15 @@ AGC::~AGC() {
 std::complex<float> AGC::execute(std::complex<float> s) {
   std::complex<float> result;
   agc_crcf_execute(object_, s, &result);
+
+  // After digital silence, a signal makes the gain collapse so deeply that liquid's AGC will not
+  // recover from it. No real-world signal needs such a low gain, so just start over.
+  constexpr float kMinGain = 1e-9f;
+  if (agc_crcf_get_gain(object_) < kMinGain) {
+    agc_crcf_reset(object_);
+    agc_crcf_set_gain(object_, initial_gain_);
+  }
+
   return result;
 }
 
diff --git a/src/dsp/liquid_wrappers.hh b/src/dsp/liquid_wrappers.hh
index 7013230..f6fa526 100644
--- a/src/dsp/liquid_wrappers.hh
+++ b/src/dsp/liquid_wrappers.hh
@@ -66,6 +66,7 @@ class AGC {
 
  private:
   agc_crcf object_{nullptr};
+  float initial_gain_{1.f};
 };
 
 class FIRFilter {
-- 
2.43.0


From 3ec7a6f6c1341d087d50571b1b0616800c73abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 30/34] fix: decode enhanced RadioText in UCS-2

The characters were taken in the host's byte order, their zero bytes were replaced
with blanks, and any 0x0D byte was taken as the end of the text.
---
 src/text/rdsstring.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 346c183..0f3208f 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -60,7 +60,8 @@ std::string getRDSCharString(std::uint8_t code) {
 
 // \throws Conversion errors from iconvpp
 std::string decodeUCS2(const std::string& src) {
-  static iconvpp::converter converter("UTF-8", "UCS-2");
+  // The byte order is not the host's but that of transmission
+  static iconvpp::converter converter("UTF-8", "UCS-2BE");
 
   std::string dst;
   converter.convert(src, dst);
@@ -109,6 +110,14 @@ std::size_t RDSString::getReceivedLength() const {
 
 // Length, in bytes, up to the first string terminator, or the full allocated length
 std::size_t RDSString::getExpectedLength() const {
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < data_.size(); i += 2) {
+      if (data_[i] == 0x00 && data_[i + 1] == kStringTerminator)
+        return i + 2;
+    }
+    return data_.size();
+  }
+
   const auto terminated_length =
       std::distance(data_.cbegin(),
                     std::find_if(data_.cbegin(), data_.cend(),
@@ -159,6 +168,19 @@ std::string RDSString::str() const {
 std::vector<std::uint8_t> RDSString::getData() const {
   const std::size_t len{getExpectedLength()};
   std::vector<std::uint8_t> result(len);
+
+  // Two bytes per character; one of them alone can well be 0x00 or 0x0D
+  if (encoding_ == Encoding::UCS2) {
+    for (std::size_t i = 0; i + 1 < len; i += 2) {
+      const bool is_blank = sequential_length_ <= i + 1 ||
+                            (data_[i] == 0x00 &&
+                             (data_[i + 1] == kStringTerminator || data_[i + 1] == 0x00));
+      result[i]     = is_blank ? 0x00 : data_[i];
+      result[i + 1] = is_blank ? kBlankSpace : data_[i + 1];
+    }
+    return result;
+  }
+
   for (std::size_t i = 0; i < len; i++) {
     result[i] = sequential_length_ > i && data_[i] != kStringTerminator && data_[i] != 0x00
                     ? data_[i]
-- 
2.43.0


From 42dfb333bc4195adc5f64e1809961e9a6141bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:49 +0000
Subject: [PATCH 31/34] fix: read location tables with empty names

An empty NAME field was passed to the character set converter, which
indexes an empty vector then (aborting in debug builds).
---
 src/tmc/locationdb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 25cc9f5..f988af5 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -36,7 +36,9 @@ namespace {
 // \throws Conversion errors from iconv
 std::string to_utf8(const std::string& input, const iconvpp::converter& converter) {
   std::string converted;
-  converter.convert(input, converted);
+  // The converter can't handle empty strings
+  if (!input.empty())
+    converter.convert(input, converted);
   return converted;
 }
 
-- 
2.43.0


From 0f52f775c0f8e2245cc0eb140872854d66ce6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:49 +0000
Subject: [PATCH 32/34] fix: don't crash on a location table with an unknown
 encoding

---
 src/tmc/tmc.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 838670b..469d8f1 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -446,8 +446,16 @@ TMCService::TMCService(const Options& options)
     : message_(is_encrypted_), service_key_table_(loadServiceKeyTable()), ps_(8) {
   if (!options.loctable_dirs.empty() && g_location_databases.empty()) {
     for (const std::string& loctable_dir : options.loctable_dirs) {
-      const auto ltn            = readLTN(loctable_dir);
-      g_location_databases[ltn] = loadLocationDatabase(loctable_dir);
+      const auto ltn = readLTN(loctable_dir);
+      try {
+        const auto database       = loadLocationDatabase(loctable_dir);
+        g_location_databases[ltn] = database;
+      } catch (const std::exception& e) {
+        // Unknown character encoding
+        std::cerr << "warning: can't load location table from " << loctable_dir << ": " << e.what()
+                  << std::endl;
+        continue;
+      }
       // This info is JSON
       if (options.output_type != OutputType::JSON)
         continue;
-- 
2.43.0


From dcf5e5d3736713335bfda0442e44a4393888e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 33/34] fix: replace every %f of the timestamp format

---
 src/util.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d33e335..b6981a9 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -36,6 +36,16 @@ std::string getHoursMinutesString(int hour, int minute) {
   return ss.str();
 }
 
+// \brief Find the next %f, not taking the latter half of a %% for its beginning
+static std::size_t findFractional(const std::string& format, std::size_t start) {
+  for (std::size_t i = format.find('%', start); i != std::string::npos && i + 1 < format.size();
+       i = format.find('%', i + 2)) {
+    if (format[i + 1] == 'f')
+      return i;
+  }
+  return std::string::npos;
+}
+
 // \brief Format a system clock timestamp
 std::string getTimePointString(const std::chrono::time_point<std::chrono::system_clock>& timepoint,
                                const std::string& format) {
@@ -46,8 +56,8 @@ std::string getTimePointString(const std::chrono::time_point<std::chrono::system
       std::chrono::system_clock::time_point(seconds_since_epoch));
 
   std::string format_with_fractional(format);
-  const std::size_t found = format_with_fractional.find("%f");
-  if (found != std::string::npos) {
+  std::size_t found = findFractional(format_with_fractional, 0);
+  while (found != std::string::npos) {
     const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
                         timepoint.time_since_epoch() - seconds_since_epoch)
                         .count();
@@ -55,6 +65,7 @@ std::string getTimePointString(const std::chrono::time_point<std::chrono::system
     const auto tenths     = (ms / 100) % 10;
 
     format_with_fractional.replace(found, 2, std::to_string(tenths) + std::to_string(hundredths));
+    found = findFractional(format_with_fractional, found + 2);
   }
 
   std::array<char, 64> buffer{};
-- 
2.43.0


From 20473bf9945037f31172bfb033e0f6fac35983b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 34/34] fix: refuse a sample rate or channel count with
 trailing characters

---
 src/options.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index 816519d..7b6c937 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -21,6 +21,7 @@
 
 #include <array>
 #include <cerrno>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <iostream>
@@ -74,10 +75,12 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        const auto num_channels = std::strtoul(optarg, nullptr, 10);
+        char* end{};
+        const auto num_channels = std::strtoul(optarg, &end, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
         constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
+        if (errno == ERANGE || *end != '\0' || num_channels < 1 ||
+            num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
         options.num_channels            = static_cast<std::uint32_t>(num_channels);
@@ -132,8 +135,11 @@ Options getOptions(int argc, char** argv) {
           else if (std::toupper(optstr.back()) == 'M')
             factor = 1e6f;
         }
-        options.samplerate = std::strtof(optarg, nullptr) * factor;
-        if (errno == ERANGE) {
+        char* end{};
+        options.samplerate = std::strtof(optarg, &end) * factor;
+        // Only the suffix may come after the number
+        if (errno == ERANGE || std::isnan(options.samplerate) ||
+            end != optarg + optstr.size() - (factor > 1.f ? 1 : 0)) {
           throw std::runtime_error("check the sample rate");
         }
         if (options.samplerate < kMinimumSampleRate_Hz ||
-- 
2.43.0

