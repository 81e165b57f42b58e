From 0609a472447c4855f65039ca5efea51908270fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 01/21] fix: dates, date-times and times stored in 3 to 7 bytes
 are not read over 8 bytes

The date, date-time and time formatters always read 8 bytes, whatever the
stored width of the column: wrong values, and a read past the end of the row
for the last column.
---
 src/formatters.hpp |  2 ++
 src/types.hpp      | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..f87a653 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,6 +109,8 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
+    if (length < sizeof(NUMBER))
+      return INTERNAL::get_incomplete_double<_endian>(data(_p), length);
     return INTERNAL::get_double<_endian>(data(_p));
   }
 
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..b338636 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,17 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+/// Only the _length (<= 8) most significant bytes of the double are stored.
+template <Endian _endian>
+inline double get_incomplete_double(const uint8_t *_buf,
+                                    const size_t _length) noexcept {
+  constexpr size_t n = sizeof(double);
+  alignas(n) uint8_t buf[n] = {0};
+  std::memcpy(_endian == Endian::big ? buf : buf + (n - _length), _buf,
+              _length);
+  return get_double<_endian>(buf);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From 8c6a92cad57a2944529016a909acc4e3fd39fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 02/21] fix: a one-byte RLE command at the end of a row is not
 dropped

The command loop asked for two bytes of input, so that a final one-byte
command (insert 2-17 '@', blanks or zeros) was ignored and the end of the row
read as zero. Operands are now checked when they are taken: a command that
misses them is rejected instead of reading past the end of the row.
---
 src/decompressors.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..188753e 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,7 +25,13 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
+  auto pop() {
+    if (!check(1)) {
+      spdlog::critical("Missing source value at offset {}\n", i_src);
+      EXCEPTION::cannot_decompress();
+    }
+    return values[i_src++];
+  }
   auto pop(const size_t _n) noexcept {
     auto v = values.substr(i_src, _n);
     i_src += _n;
@@ -204,7 +210,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From 38349eec81ec4401a42f772967aa2f39de66f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 03/21] fix: RDC patterns that overlap their copy or start
 before the row

Overlapping patterns were copied with memcpy (undefined, and wrong on common
implementations), and a pattern starting before the row read outside the
buffer. They are now copied byte by byte, respectively rejected.
---
 src/decompressors.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index 188753e..bd6641c 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -103,8 +103,13 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // The pattern may overlap its copy
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
-- 
2.43.0


From c2e139bc5b35860152ef15f0881923242e5c218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 04/21] fix: infinite and out-of-calendar dates and times are
 not-a-date-time

Such values threw inside a noexcept function (and ended the process), or came
back as some other instant: overflowing durations, or dates taken for seconds.
---
 src/types.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index b338636..4211f62 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -154,7 +154,9 @@ inline double get_incomplete_double(const uint8_t *_buf,
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
+  // Missing, infinite or far outside the calendar
+  constexpr double max_seconds{1e12};
+  if (!(std::fabs(_seconds) < max_seconds))
     return not_a_date_time;
   ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
@@ -163,33 +165,33 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
   const auto _microseconds = std::round((_seconds - _secs) * 1e6);
-  return start + days(std::lround(_days)) + seconds(std::lround(_secs)) +
-         microseconds(std::lround(_microseconds));
+  const auto duration = hours(24 * std::lround(_days)) +
+                        seconds(std::lround(_secs)) +
+                        microseconds(std::lround(_microseconds));
+  if (duration < ptime(min_date_time) - start ||
+      duration > ptime(max_date_time) - start)
+    return not_a_date_time;
+  return start + duration;
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
   return get_datetime_from_epoch(_seconds).time_of_day();
 }
 
-inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
-  return get_datetime_from_epoch(_seconds).date();
-}
-
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  // Missing, infinite or outside the calendar
+  const DATE start(1960, 1, 1);
+  const double n = std::round(_days);
+  if (!(n >= static_cast<double>((DATE(min_date_time) - start).days()) &&
+        n <= static_cast<double>((DATE(max_date_time) - start).days())))
     return DATE(not_a_date_time);
-  ptime start(boost::gregorian::date(1960, 1, 1));
-  return (start + days(std::lround(_days))).date();
+  return start + days(std::lround(n));
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-  const auto x = get_date_from_epoch_days(_t);
-  if (x.is_not_a_date())
-    return get_date_from_epoch_seconds(_t);
-  else
-    return x;
+  return get_date_from_epoch_days(_t);
 }
 
 template <Format _format> struct number_types {};
-- 
2.43.0


From d8b076ea1febd8d8aabef2007406cecf7d301a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 05/21] fix: malformed headers, pages and subheaders are
 rejected instead of read out of bounds

The checks on buffer accesses were noexcept (a failed check ended the process),
could overflow, or were missing.
---
 src/buffer.hpp   | 37 ++++++++++++++-------------
 src/data.hpp     |  3 +--
 src/header.hpp   |  4 +--
 src/metadata.hpp | 66 +++++++++++++++++++++++++++++++-----------------
 src/page.hpp     |  9 ++++---
 5 files changed, 72 insertions(+), 47 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..23d6fd5 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,26 +60,29 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+  uint8_t *data(const size_t _offset, [[maybe_unused]] const size_t _length) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -125,56 +128,56 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -195,13 +198,13 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/data.hpp b/src/data.hpp
index d381427..f89f574 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8f9928e 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..17a3a5a 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,6 +161,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // A subheader too short to hold a signature can only be a data row
+    if (_subheader.length < integer_size)
+      return process_row_subheader(_subheader, _metadata);
+
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
         buf.get_bytes(_subheader.offset, integer_size);
@@ -197,6 +201,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       return false;
     }
 
+    return process_row_subheader(_subheader, _metadata);
+  }
+
+  bool process_row_subheader(const PAGE_SUBHEADER &_subheader,
+                             const Properties::Metadata *_metadata) {
     if (DataSubHeader::check(_metadata, _subheader)) {
       process_DATA_SUBHEADER(_subheader);
       return true;
@@ -216,24 +225,33 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
                        });
   }
 
+  static void assert_length(const PAGE_SUBHEADER &_subheader,
+                            const size_t _length) {
+    if (_subheader.length < _length)
+      EXCEPTION::invalid_buffer_access(_subheader.offset, _length,
+                                       _subheader.length);
+  }
+
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
-    _metadata->lcs = buf.get_uint16(_subheader.offset + lcs_offset);
-    _metadata->lcp = buf.get_uint16(_subheader.offset + lcp_offset);
-    _metadata->row_length =
-        buf.get_uinteger(_subheader.offset + 5 * integer_size);
-    _metadata->row_count =
-        buf.get_uinteger(_subheader.offset + 6 * integer_size);
-    _metadata->col_count_p1 =
-        buf.get_uinteger(_subheader.offset + 9 * integer_size);
-    _metadata->col_count_p2 =
-        buf.get_uinteger(_subheader.offset + 10 * integer_size);
-    _metadata->mix_page_row_count =
-        buf.get_uinteger(_subheader.offset + 15 * integer_size);
+    _metadata->lcs =
+        buf.template get_uint16<ASSERT::YES>(_subheader.offset + lcs_offset);
+    _metadata->lcp =
+        buf.template get_uint16<ASSERT::YES>(_subheader.offset + lcp_offset);
+    _metadata->row_length = buf.template get_uinteger<ASSERT::YES>(
+        _subheader.offset + 5 * integer_size);
+    _metadata->row_count = buf.template get_uinteger<ASSERT::YES>(
+        _subheader.offset + 6 * integer_size);
+    _metadata->col_count_p1 = buf.template get_uinteger<ASSERT::YES>(
+        _subheader.offset + 9 * integer_size);
+    _metadata->col_count_p2 = buf.template get_uinteger<ASSERT::YES>(
+        _subheader.offset + 10 * integer_size);
+    _metadata->mix_page_row_count = buf.template get_uinteger<ASSERT::YES>(
+        _subheader.offset + 15 * integer_size);
     D(spdlog::info("lcs={}, lcp={}, row_length={}, row_count={}, "
                    "col_count_p1={}, col_count_p2={}, mix_page_row_count={}\n",
                    _metadata->lcs, _metadata->lcp, _metadata->row_length,
@@ -243,7 +261,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -256,7 +274,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_SUBHEADER_COUNTS_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) const noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) const {
     D(spdlog::info(
         "READ_METADATA::process_SUBHEADER_COUNTS_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -266,7 +284,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -301,7 +319,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
-                                     size_t _length) const noexcept {
+                                     size_t _length) const {
     if (_idx < column_texts.size()) {
       const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
@@ -324,9 +342,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
+    assert_length(_subheader, 12 + integer_size);
     const size_t offset_max =
         _subheader.offset + _subheader.length - 12 - integer_size;
     for (size_t offset = _subheader.offset + integer_size + 8;
@@ -344,10 +363,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
+    assert_length(_subheader, 12 + integer_size);
     const size_t offset_max =
         _subheader.offset + _subheader.length - 12 - integer_size;
     for (size_t offset = _subheader.offset + integer_size + 8;
@@ -366,7 +386,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -394,15 +414,15 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_LIST_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) const noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_LIST_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     // spdlog::info("READ_METADATA::process_COLUMN_LIST_SUBHEADER: {}\n",
     // buf.get_string_untrim(_subheader.offset, _subheader.length));
   }
 
-  void process_DATA_SUBHEADER([
-      [maybe_unused]] const PAGE_SUBHEADER &_subheader) noexcept {
+  void
+  process_DATA_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader) {
     D(spdlog::info("READ_METADATA::process_DATA_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     data_subheaders.emplace_back(_subheader);
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..ef7e536 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,9 +104,12 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
-    current_page_header.type = buf.get_uint16(page_bit_offset + 0);
-    current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
-    current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
+    current_page_header.type =
+        buf.template get_uint16<ASSERT::YES>(page_bit_offset + 0);
+    current_page_header.block_count =
+        buf.template get_uint16<ASSERT::YES>(page_bit_offset + 2);
+    current_page_header.subheaders_count =
+        buf.template get_uint16<ASSERT::YES>(page_bit_offset + 4);
     D(spdlog::info("{},{},{}\n", current_page_header.type,
                    current_page_header.block_count,
                    current_page_header.subheaders_count));
-- 
2.43.0


From 6f5a82430a832bdc9cfcd27c9f0b95e393062ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 06/21] fix: text of missing dates, date-times and times (threw
 or read past its buffer)

---
 src/formatters.hpp | 14 ++++++++++----
 src/types.cpp      |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index f87a653..d5b2827 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -156,8 +156,11 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    if (x.is_special())
+      return "not-a-date-time";
+    return cppsas7bdat::to_string(
+        x); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
 };
 
@@ -180,8 +183,11 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    if (x.is_special())
+      return "not-a-date-time";
+    return cppsas7bdat::to_string(
+        x); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
 };
 
diff --git a/src/types.cpp b/src/types.cpp
index b77f595..ec0c885 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -42,7 +42,9 @@ std::string to_string(DATE _x) {
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
+  if (_x.is_special())
+    return "not-a-date-time";
+  char szBuffer[32];
   size_t size{0};
   if (_x.fractional_seconds()) {
     auto r = fmt::format_to_n(
-- 
2.43.0


From 22b300f86629bb6c232e133b61baa1fbaee2ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 07/21] fix: print sink used column names as format strings

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 9f1b59947422648ec2fe8b47399dd759e74d5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 08/21] fix: CSV sink doubles the quotes embedded in names and
 texts

---
 include/cppsas7bdat/sink/csv.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..a3e7a7e 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -71,7 +71,16 @@ struct csv {
 
   void end_of_data() const noexcept {}
 
-  void print(const SV &_x) { fmt::print(os, "\"{}\"", _x); }
+  void print(const SV &_x) {
+    // Embedded double quotes are doubled
+    os << '"';
+    for (const char c : _x) {
+      if (c == '"')
+        os << '"';
+      os << c;
+    }
+    os << '"';
+  }
   void print(const NUMBER _x) {
     if (!std::isnan(_x))
       fmt::print(os, "{}", _x);
-- 
2.43.0


From 4efce43fcba442852ea6c97cbe881864f287e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 09/21] fix: CSV sink opened by file name wrote to a stale
 stream after being moved

---
 include/cppsas7bdat/sink/csv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index a3e7a7e..03070ab 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -100,6 +100,10 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  // The stream to write to is the one of the new object
+  csv_ofstream(csv_ofstream &&_rhs) : _ofstream(std::move(_rhs)), csv(ofs) {
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 4894a704aa3ddff180a661adcbc721a3f225ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 10/21] fix: csv command overwrote its input file instead of
 writing the CSV file

---
 apps/cppsas7bdat-ci.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..7159a19 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,7 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <filesystem>
 
 namespace {
   static constexpr auto USAGE =
@@ -42,20 +43,26 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
-  }
-  return _filename + "csv";
+  return std::filesystem::path(_filename).replace_extension(".csv").string();
 }
 
-void process_csv(const std::string& _filename)
+void process_csv(const std::string& _filename, const std::vector<std::string>& _inputs)
 {
   const auto csv_filename = get_csv_filename(_filename);
-  //std::ofstream csv_os(csv_filename.c_str());
-  //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  // Never overwrite one of the inputs
+  for(const auto& input: _inputs) {
+    std::error_code ec;
+    if(csv_filename == input || std::filesystem::equivalent(csv_filename, input, ec)) {
+      throw std::runtime_error(fmt::format("{}: the output file is an input file", csv_filename));
+    }
+  }
+  cppsas7bdat::datasource::ifstream source(_filename.c_str());
+  std::ofstream csv_os(csv_filename.c_str());
+  cppsas7bdat::Reader reader(source, cppsas7bdat::datasink::csv(csv_os));
   reader.read_all();
+  if(!csv_os.flush()) {
+    throw std::runtime_error(fmt::format("{}: cannot write", csv_filename));
+  }
 }
 
 void process_null(const std::string& _filename)
@@ -84,7 +91,7 @@ int main(const int argc, char* argv[])
   } else if(args["csv"].asBool()) {
     const auto files = args["<file>"].asStringList();
     for(const auto& file: files) {
-      process_csv(file);
+      process_csv(file, files);
     }
   } else if(args["null"].asBool()) {
     const auto files = args["<file>"].asStringList();
-- 
2.43.0


From a6eef193e84d773b36fb656173556efb0879012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 11/21] fix: columns that lie outside the row are rejected

Values of such columns were read past the end of the row. Temporal columns
are only decoded from the 3 to 8 bytes numbers are stored in.
---
 src/metadata.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 17a3a5a..01a8579 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -321,7 +321,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
                                      size_t _length) const {
     if (_idx < column_texts.size()) {
-      const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
+      const auto &ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
@@ -433,7 +433,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     const size_t ncols = _metadata->column_count;
     _metadata->columns.reserve(ncols);
 
-    auto get_value = [&](auto arg, auto vals, const size_t icol) {
+    auto get_value = [&](auto arg, const auto &vals, const size_t icol) {
       const auto n = std::min(ncols, vals.size());
       if (n != ncols)
         spdlog::info("Mismatch between the expected number of columns ({}) and "
@@ -455,6 +455,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
 
+      // The values of the column must be part of the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
+
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
         D(spdlog::info("add_column: {}, {}, {}, {}, {}, {}\n", column_name,
@@ -479,6 +485,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
+        else if (column_length < 3 || column_length > 8)
+          ; // Not supported
         else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
-- 
2.43.0


From 4da57ca77886d68ac664e59627cb944c1f578862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 12/21] fix: a page without rows ended the reading, or rows
 were made up from it

---
 src/data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index f89f574..be57af5 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -153,8 +153,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
       return false;
     if (!page)
       return false;
-    // Do we need to read a new page from the file?
-    if (page->next()) {
+    // Do we need to read a new page from the file? It may have no row...
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From bc035d4587b119e2232e21a1720d054aec901c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 13/21] fix: compressed rows whose first bytes look like a
 signature were dropped

---
 src/metadata.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 01a8579..e4f79f0 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,8 +161,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
-    // A subheader too short to hold a signature can only be a data row
-    if (_subheader.length < integer_size)
+    // A compressed row has no signature: its first bytes may have any value.
+    // A subheader too short to hold a signature can only be a row.
+    if (_subheader.length < integer_size ||
+        (_subheader.compression == COMPRESSED_SUBHEADER_ID &&
+         DataSubHeader::check(_metadata, _subheader)))
       return process_row_subheader(_subheader, _metadata);
 
     // Match the subheader signature to the correct processing function
-- 
2.43.0


From 6bc7ed4a1272057aea9a8f99a9949c37faf77f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 14/21] fix: a file cut before its row and column sizes was
 read as an empty dataset

---
 src/metadata.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index e4f79f0..e82f58f 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -121,6 +121,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   std::vector<size_t> column_data_offsets;
   std::vector<size_t> column_data_lengths;
   std::vector<Column::Type> column_data_types;
+  bool row_size_found{false};
+  bool column_size_found{false};
 
   using READ_PAGE<_DataSource, _endian, _format>::read_page;
   using READ_PAGE<_DataSource, _endian, _format>::process_page_subheaders;
@@ -138,6 +140,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       if (process_page(_metadata))
         break;
     }
+    // Without them, the file is not complete
+    if (!row_size_found || !column_size_found)
+      EXCEPTION::cannot_read_page();
     create_columns(_metadata, _filter);
   }
 
@@ -173,10 +178,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         buf.get_bytes(_subheader.offset, integer_size);
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
+      row_size_found = true;
       return false;
     }
     if (match_signature(COLUMN_SIZE_SUBHEADER, subheader_signature)) {
       process_COLUMN_SIZE_SUBHEADER(_subheader, _metadata);
+      column_size_found = true;
       return false;
     }
     if (match_signature(SUBHEADER_COUNTS_SUBHEADER, subheader_signature)) {
-- 
2.43.0


From acfb5956c243aaa334885a3049fe0005210fddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 15/21] fix: labels and names starting or ending with a
 non-ASCII character were dropped or cut

---
 src/metadata.hpp | 7 +++----
 src/types.hpp    | 8 ++++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index e82f58f..8a872d0 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -335,13 +335,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
+      if (_length && (ct[_offset] == ' ' || is_text(ct[_offset]))) {
+        while (_length && std::isspace(static_cast<uint8_t>(ct[_offset]))) {
           ++_offset;
           --_length;
         }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
+        while (_length && !is_text(ct[_offset + _length - 1])) {
           --_length;
         }
         return ct.substr(_offset, _length);
diff --git a/src/types.hpp b/src/types.hpp
index 4211f62..3afafcf 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -33,6 +33,11 @@ inline std::string_view get_string_trim_0(const uint8_t *_buf,
   return get_string(_buf, _length);
 }
 
+/// Non-ASCII characters, whatever their encoding, are part of the text
+inline bool is_text(const uint8_t _c) noexcept {
+  return _c >= 0x80 || (std::isprint(_c) && !std::isspace(_c));
+}
+
 inline std::string_view get_string_trim(const uint8_t *_buf,
                                         size_t _length) noexcept {
   size_t offset = 0;
@@ -40,8 +45,7 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
-                     std::isspace(_buf[offset + _length - 1]))) {
+  while (_length && !is_text(_buf[offset + _length - 1])) {
     --_length;
   }
   return get_string(_buf + offset, _length);
-- 
2.43.0


From 9e58415f7c23cb9d4f593e864480777475dc1847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 16/21] fix: Python chunks starting after skipped rows had a
 wrong first row number

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..74b9be3 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -262,6 +262,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (idata == 0)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
@@ -378,7 +380,6 @@ struct SinkChunk : public SinkBase {
 
   void clear_values() {
     idata = 0;
-    istartrow = iendrow + 1;
     clear_values(col_numbers);
     clear_values(col_integers);
     clear_values(col_datetimes);
-- 
2.43.0


From 3a971b7b08c500e3383a2d0e6dc19d491457bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 17/21] fix: Python sinks and properties kept references to
 destroyed readers

A second end of data also failed, on the already deleted _cpp attribute.
---
 python/pycppsas7bdat/cpp/reader.cpp |  2 +-
 python/pycppsas7bdat/cpp/sink.hpp   | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..81051fc 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -96,7 +96,7 @@ void bind_reader() {
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
       .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+           return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 74b9be3..82764b7 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -32,20 +32,35 @@ struct SinkBase : public boost::noncopyable {
   using STRING = boost::python::object;
 
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
-  ~SinkBase() {
-    if (self)
+  virtual ~SinkBase() {
+    if (self) {
+      PyObject *type, *value, *traceback;
+      PyErr_Fetch(&type, &value, &traceback);
+      del_cpp_attr();
+      PyErr_Restore(type, value, traceback);
       Py_DECREF(self);
+    }
   }
   SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
 
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
     boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    if (PyObject_SetAttrString(self, "_cpp", value.ptr()) < 0)
+      boost::python::throw_error_already_set();
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  // Only if the attribute is still the one of this object
+  void del_cpp_attr() {
+    PyObject *po = PyObject_GetAttrString(self, "_cpp");
+    if (po) {
+      boost::python::extract<SinkBase *> value(po);
+      if (value.check() && value() == this)
+        PyObject_DelAttrString(self, "_cpp");
+      Py_DECREF(po);
+    }
+    PyErr_Clear();
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
-- 
2.43.0


From cf0afcc6d329ab9ab546d03a2201326dd5a91d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 18/21] fix: rows and chunks given to R sinks changed or were
 corrupted when reading went on

The lists and vectors were reused for the following rows, a second end of
data gave the rows again, and reading on after it wrote past the end of the
vectors.
---
 R/CPPSAS7BDAT/src/sink.hpp            |  5 +++--
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 18 +++++++++++++-----
 R/CPPSAS7BDAT/src/sink_chunk.hpp      | 18 +++++-------------
 R/CPPSAS7BDAT/src/sink_data.hpp       |  4 +++-
 4 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..1e6953c 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // A new list for each row: the sink may keep the previous ones
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..1e60cd7 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -15,7 +15,7 @@ namespace Rcppsas7bdat {
 
 struct SinkByColumns : public SinkBase {
   const size_t size;
-  size_t idata{0}, ilastrow{0};
+  size_t idata{0}, inextrow{0}, ilastrow{0};
 
   using COL_NUMBERS = Rcpp::NumericVector;
   using COL_INTEGERS = Rcpp::IntegerVector;
@@ -61,10 +61,17 @@ struct SinkByColumns : public SinkBase {
     ilastrow = _properties /*.metadata*/.row_count;
     SinkBase::set_properties(_properties);
     columns = cppsas7bdat::Columns(_properties /*.metadata*/.columns);
-    prepare_values(size ? std::min(size, ilastrow) : ilastrow);
+    prepare_values();
     setup_col_names();
   }
 
+  /// New vectors for the next rows: the sink may keep the previous ones
+  void prepare_values() {
+    const size_t nrows = ilastrow - std::min(inextrow, ilastrow);
+    prepare_values(size ? std::min(size, nrows) : nrows);
+    idata = 0;
+  }
+
   static void push_value(COL_STRINGS &_values, const size_t _idata,
                          const cppsas7bdat::SV _x) {
     _values[_idata] = std::string(_x);
@@ -118,6 +125,7 @@ struct SinkByColumns : public SinkBase {
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
 
     row_index[idata] = _irow;
+    inextrow = _irow + 1;
 
     push_values(
         _p, columns.numbers, col_numbers,
@@ -165,6 +173,9 @@ protected:
   void set_values() {
     size_t icol = {0};
 
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
         if (idata != column.size()) {
@@ -197,9 +208,6 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..ed3a55e 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -14,8 +14,6 @@
 namespace Rcppsas7bdat {
 
 struct SinkChunk : public SinkByColumns {
-  size_t istartrow{0}, iendrow{0};
-
   explicit SinkChunk(Environment _sink, const size_t _size)
       : SinkByColumns(_sink, _size), f_push_rows(sink["push_rows"]) {}
 
@@ -23,25 +21,19 @@ struct SinkChunk : public SinkByColumns {
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     SinkByColumns::push_row(_irow, _p);
 
-    iendrow = _irow;
-    if (idata == size) {
+    if (idata == size)
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
-      }
-    }
   }
 
   void end_of_data() { flush(); }
 
   void flush() {
-    if (istartrow > iendrow || idata == 0)
+    if (idata == 0)
       return;
     SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
-    idata = 0;
-    istartrow = iendrow + 1;
+    const auto index = row_index;
+    SinkByColumns::prepare_values();
+    f_push_rows(index, rows);
   }
 
 protected:
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..e4812f0 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -23,7 +23,9 @@ struct SinkData : public SinkByColumns {
     if (idata == 0)
       return;
     SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    const auto index = row_index;
+    SinkByColumns::prepare_values();
+    f_set_data(index, rows);
   }
 
 protected:
-- 
2.43.0


From 932fee13a3a6c9fde2af03c5d0654ac3d8dc712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 19/21] fix: R sinks took the column names and the row count
 from a missing metadata list

---
 R/CPPSAS7BDAT/R/sink.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..05d9e4d 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,7 +36,7 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
 	    rows <- as.data.frame(rows);
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From 95cf4098abe2f8ac17ec4af32bab4a29c48dc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 20/21] fix: the print command reports output that cannot be
 written

---
 apps/cppsas7bdat-ci.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 7159a19..c9b3ba3 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -39,6 +39,9 @@ void process_print(const std::string& _filename, long _n)
   while(_n != 0 && reader.read_row()) {
     if(_n > 0) --_n;
   }
+  if(!std::cout.flush()) {
+    throw std::runtime_error("cannot write the standard output");
+  }
 }
 
 std::string get_csv_filename(const std::string& _filename)
-- 
2.43.0


From eeb429f1e0d40b0807f2b1ce0bbb39fac052917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 21/21] fix: the R chunk sink keeps the column names

---
 R/CPPSAS7BDAT/R/sink.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 05d9e4d..5141060 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -39,7 +39,7 @@ SinkByChunk <- R6Class("SinkByChunk",
 	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
-	    rows <- as.data.frame(rows);
+	    rows <- as.data.frame(rows, optional=TRUE);
 	    if(is.null(self$df)) { self$df=rows; }
 	    else { self$df = rbind(self$df, rows); }
     }
-- 
2.43.0

