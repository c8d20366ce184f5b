From 4a951ccbac2484efe5f419479c3b3bb4bf2531d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 01/36] fix: packed set() masks the value to the member's own
 bits

---
 include/vrtgen/types/packed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..4e4aa73 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask{ static_cast<T>((static_cast<T>(~static_cast<T>(0)) >> (sizeof(T) * 8 - bits)) << shift) };
 }; // end struct field_traits
 
 } // end namespace detail
@@ -87,7 +87,7 @@ public:
         using traits = detail::field_traits<T,Pos,Bits>;
         // Fetch the current value in host order, then mask off the field bits
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From 6558dbef710660b0029df930b99da4dc232a3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 02/36] fix: zero the padding behind a data payload

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From f1dd74dd7e88e0376debd952b6e24e89a4f60105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 03/36] fix: give each stream_id constituent its own value

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From 1bfc1f375b505874d6d26254d70673f8317f5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 04/36] fix: GPS ASCII sentences are padded to whole words and
 counted in words

---
 include/vrtgen/packing/cif0.hpp | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..c671828 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1050,7 +1050,7 @@ public:
      */
     uint32_t number_of_words() const noexcept
     {
-        return m_packed.get<31,32,uint32_t>();
+        return static_cast<uint32_t>((m_ascii_sentences.size() + 3) / 4);
     }
 
     /**
@@ -1090,8 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
-        number_of_words(m_ascii_sentences.size()/4);
+        m_ascii_sentences.resize(number_of_words() * 4);
     }
 
     /**
@@ -1101,7 +1100,7 @@ public:
     std::size_t size() const noexcept
     {
         return m_packed.size() +
-               m_ascii_sentences.size();
+               number_of_words() * 4;
     }
 
     /**
@@ -1110,9 +1109,12 @@ public:
      */
     void pack_into(uint8_t* buffer_ptr) const
     {
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
-        std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
+        auto packed = m_packed;
+        packed.set<31,32>(number_of_words());
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
+        const auto pad_ptr = std::copy(m_ascii_sentences.begin(), m_ascii_sentences.end(), buffer_ptr);
+        std::fill(pad_ptr, buffer_ptr + number_of_words() * 4, 0);
     }
 
     /**
@@ -1124,23 +1126,10 @@ public:
         auto ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_ascii_sentences.resize(number_of_words()*4);
-        std::copy(ptr, ptr + number_of_words()*4, m_ascii_sentences.data());
+        m_ascii_sentences.assign(ptr, ptr + std::size_t{ m_packed.get<31,32,uint32_t>() } * 4);
     }
 
 private:
-    /**
-     * @brief Sets the Number of Words subfield value
-     * @param value Number of Words subfield value to set
-     * 
-     * Number of Words subfield is 32 bits long at bit position 31 in word 2
-     * See VITA 49.2-2017 Figure 9.4.7-1
-     */
-    void number_of_words(uint32_t value) noexcept
-    {
-        m_packed.set<31,32>(value);
-    }
-
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint8_t> m_ascii_sentences;
 
-- 
2.43.0


From f826623c9f20a13989549634cafafa9a04438e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 05/36] fix: context association lists go out big-endian with
 the tag list its enable flag announces

---
 include/vrtgen/packing/cif0.hpp | 121 +++++++++++++++-----------------
 1 file changed, 56 insertions(+), 65 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index c671828..725d049 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1293,32 +1293,32 @@ class ContextAssociationLists
 public:
     uint16_t source_list_size() const noexcept
     {
-        return m_packed.get<56,9,uint16_t>();
+        return static_cast<uint16_t>(m_source_list.size());
     }
 
-    void source_list_size(uint16_t value) noexcept
+    void source_list_size(uint16_t value)
     {
-        m_packed.set<56,9>(value);
+        m_source_list.resize(value);
     }
 
     uint16_t system_list_size() const noexcept
     {
-        return m_packed.get<40,9,uint16_t>();
+        return static_cast<uint16_t>(m_system_list.size());
     }
 
-    void system_list_size(uint16_t value) noexcept
+    void system_list_size(uint16_t value)
     {
-        m_packed.set<40,9>(value);
+        m_system_list.resize(value);
     }
 
     uint16_t vector_component_list_size() const noexcept
     {
-        return m_packed.get<31,16,uint16_t>();
+        return static_cast<uint16_t>(m_vector_component_list.size());
     }
 
-    void vector_component_list_size(uint16_t value) noexcept
+    void vector_component_list_size(uint16_t value)
     {
-        m_packed.set<31,16>(value);
+        m_vector_component_list.resize(value);
     }
 
     bool async_channel_tag_list_enable() const noexcept
@@ -1333,12 +1333,12 @@ public:
 
     uint16_t async_channel_list_size() const noexcept
     {
-        return m_packed.get<14,15,uint16_t>();
+        return static_cast<uint16_t>(m_async_channel_list.size());
     }
 
-    void async_channel_list_size(uint16_t value) noexcept
+    void async_channel_list_size(uint16_t value)
     {
-        m_packed.set<14,15>(value);
+        m_async_channel_list.resize(value);
     }
 
     std::vector<uint32_t>& source_list() noexcept
@@ -1414,6 +1414,7 @@ public:
     void async_channel_tag_list(const std::vector<uint32_t>& value) noexcept
     {
         m_async_channel_tag_list = value;
+        async_channel_tag_list_enable(!m_async_channel_tag_list.empty());
     }
 
     /**
@@ -1436,8 +1437,9 @@ public:
         if (!m_async_channel_list.empty()) {
             retval += m_async_channel_list.size() * sizeof(uint32_t);
         }
-        if (!m_async_channel_tag_list.empty()) {
-            retval += m_async_channel_tag_list.size() * sizeof(uint32_t);
+        if (async_channel_tag_list_enable()) {
+            // One tag for each channel
+            retval += m_async_channel_list.size() * sizeof(uint32_t);
         }
         return retval;
     }
@@ -1446,33 +1448,21 @@ public:
      * @brief Pack ContextAssociationLists as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add ContextAssociationLists bytes
      */
-    void pack_into(uint8_t* buffer_ptr)
+    void pack_into(uint8_t* buffer_ptr) const
     {
-        source_list_size(m_source_list.size());
-        system_list_size(m_system_list.size());
-        vector_component_list_size(m_vector_component_list.size());
-        async_channel_list_size(m_async_channel_list.size());
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
-        for (const auto elem : m_source_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_system_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_vector_component_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_async_channel_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
-        }
-        for (const auto elem : m_async_channel_tag_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+        auto packed = m_packed;
+        packed.set<56,9>(m_source_list.size());
+        packed.set<40,9>(m_system_list.size());
+        packed.set<31,16>(m_vector_component_list.size());
+        packed.set<14,15>(m_async_channel_list.size());
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
+        buffer_ptr = pack_list(m_source_list, m_source_list.size(), buffer_ptr);
+        buffer_ptr = pack_list(m_system_list, m_system_list.size(), buffer_ptr);
+        buffer_ptr = pack_list(m_vector_component_list, m_vector_component_list.size(), buffer_ptr);
+        buffer_ptr = pack_list(m_async_channel_list, m_async_channel_list.size(), buffer_ptr);
+        if (async_channel_tag_list_enable()) {
+            pack_list(m_async_channel_tag_list, m_async_channel_list.size(), buffer_ptr);
         }
     }
 
@@ -1482,37 +1472,38 @@ public:
      */
     void unpack_from(const uint8_t* buffer_ptr)
     {
-        auto* ptr = buffer_ptr;
+        auto ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_source_list.resize(source_list_size());
-        for (std::size_t i=0; i<m_source_list.size(); ++i) {
-            std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_system_list.resize(system_list_size());
-        for (std::size_t i=0; i<m_system_list.size(); ++i) {
-            std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_vector_component_list.resize(vector_component_list_size());
-        for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
-            std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
-        }
-        m_async_channel_list.resize(async_channel_list_size());
-        for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
-            std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
+        ptr = unpack_list(m_source_list, m_packed.get<56,9,uint16_t>(), ptr);
+        ptr = unpack_list(m_system_list, m_packed.get<40,9,uint16_t>(), ptr);
+        ptr = unpack_list(m_vector_component_list, m_packed.get<31,16,uint16_t>(), ptr);
+        ptr = unpack_list(m_async_channel_list, m_packed.get<14,15,uint16_t>(), ptr);
+        unpack_list(m_async_channel_tag_list, async_channel_tag_list_enable() ? m_async_channel_list.size() : 0, ptr);
+    }
+
+private:
+    static uint8_t* pack_list(const std::vector<uint32_t>& list, std::size_t count, uint8_t* ptr)
+    {
+        for (std::size_t i=0; i<count; ++i) {
+            const auto elem = vrtgen::swap::to_be(i < list.size() ? list[i] : uint32_t{});
+            std::memcpy(ptr, &elem, sizeof(elem));
+            ptr += sizeof(elem);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
-        for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
-            std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
-            ptr += sizeof(uint32_t);
+        return ptr;
+    }
+
+    static const uint8_t* unpack_list(std::vector<uint32_t>& list, std::size_t count, const uint8_t* ptr)
+    {
+        list.resize(count);
+        for (auto& elem : list) {
+            std::memcpy(&elem, ptr, sizeof(elem));
+            elem = vrtgen::swap::from_be(elem);
+            ptr += sizeof(elem);
         }
+        return ptr;
     }
 
-private:
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint32_t> m_source_list;
     std::vector<uint32_t> m_system_list;
-- 
2.43.0


From df549219c3fb3eafc3aeb367ab85bddab2232412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 06/36] fix: EbNo/BER and SNR default to unspecified, Spectrum
 starts at zero and keeps its signs

---
 include/vrtgen/packing/cif1.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..cb8d43e 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -233,8 +233,8 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        ebno(vrtgen::fixed::to_fp<16,7>(0x7FFF));
+        ber(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
@@ -429,7 +429,7 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        snr(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
@@ -804,15 +804,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{ 0 };
+    uint32_t m_num_window_points{ 0 };
+    int64_t m_resolution{ 0 };
+    int64_t m_span{ 0 };
+    uint32_t m_num_averages{ 0 };
+    uint32_t m_weighting_factor{ 0 };
+    int32_t m_f1_index{ 0 };
+    int32_t m_f2_index{ 0 };
+    uint32_t m_window_time_delta{ 0 };
 
 }; // class Spectrum
 
-- 
2.43.0


From 90f5d3c687d882dfc5348aca45582a7f3bfc4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 07/36] fix: index lists go out big-endian in whole words, list
 counts follow the lists

---
 include/vrtgen/packing/cif1.hpp | 53 ++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index cb8d43e..524f4f0 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -984,12 +984,12 @@ public:
 
     uint16_t num_records() const noexcept
     {
-        return m_packed.get<11,12,uint16_t>();
+        return static_cast<uint16_t>(m_records.size());
     }
 
-    void num_records(uint16_t value) noexcept
+    void num_records(uint16_t value)
     {
-        m_packed.set<11,12>(value);
+        m_records.resize(value);
     }
 
     SectorStepScanCIF& subfield_cif() noexcept
@@ -1038,8 +1038,10 @@ public:
     {
         std::memcpy(buffer_ptr, &m_array_size, sizeof(m_array_size));
         buffer_ptr += sizeof(m_array_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        auto packed = m_packed;
+        packed.set<11,12>(m_records.size());
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
         m_subfield_cif.pack_into(buffer_ptr);
         buffer_ptr += m_subfield_cif.size();
         for (const auto& elem : m_records) {
@@ -1057,7 +1059,7 @@ public:
         ptr += m_packed.size();
         m_subfield_cif.unpack_from(ptr);
         ptr += m_subfield_cif.size();
-        m_records.resize(num_records());
+        m_records.resize(m_packed.get<11,12,uint16_t>());
         for (size_t i=0; i<m_records.size(); ++i) {
             m_records[i].unpack_from(ptr);
             ptr += m_records[i].size();
@@ -1079,6 +1081,12 @@ template<typename T>
 class IndexList
 {
 public:
+    IndexList()
+    {
+        // The entry size code is the number of bytes of one entry
+        entry_size(EntrySize{ sizeof(T) });
+    }
+
     uint32_t total_size() const noexcept
     {
         return vrtgen::swap::from_be(m_total_size);
@@ -1101,12 +1109,12 @@ public:
 
     uint32_t num_entries() const noexcept
     {
-        return m_packed.get<19,20,uint32_t>();
+        return static_cast<uint32_t>(m_entries.size());
     }
 
-    void num_entries(uint32_t value) noexcept
+    void num_entries(uint32_t value)
     {
-        m_packed.set<19,20>(value);
+        m_entries.resize(value);
     }
 
     std::vector<T>& entries() noexcept
@@ -1129,23 +1137,27 @@ public:
         std::size_t retval = 0;
         retval += sizeof(m_total_size);
         retval += m_packed.size();
-        if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
-        }
-        return retval;
+        retval += m_entries.size() * sizeof(T);
+        // Entries are packed into whole 32-bit words
+        return (retval + 3) / 4 * 4;
     }
 
     void pack_into(uint8_t* buffer_ptr) const
     {
+        const auto end_ptr = buffer_ptr + size();
         std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
         buffer_ptr += sizeof(m_total_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
-        for (const auto elem : m_entries) {
+        auto packed = m_packed;
+        packed.set<19,20>(m_entries.size());
+        packed.pack_into(buffer_ptr);
+        buffer_ptr += packed.size();
+        for (auto elem : m_entries) {
             static_assert(std::is_trivially_copyable_v<decltype(elem)>);
+            elem = vrtgen::swap::to_be(elem);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
+        std::fill(buffer_ptr, end_ptr, 0);
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
@@ -1155,10 +1167,11 @@ public:
         ptr += sizeof(m_total_size);
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_entries.resize(num_entries());
-        for (size_t i=0; i<m_entries.size(); ++i) {
-            std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
-            ptr += sizeof(m_entries[i]);
+        m_entries.resize(m_packed.get<19,20,uint32_t>());
+        for (auto& elem : m_entries) {
+            std::memcpy(&elem, ptr, sizeof(elem));
+            elem = vrtgen::swap::from_be(elem);
+            ptr += sizeof(elem);
         }
     }
 
-- 
2.43.0


From da459b3fba3f0e75c7d8540ea2a682054b426e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 08/36] fix: keep later fields in place when a variable-length
 or dropped field changes size

---
 .../cpp/templates/ack_packet.cpp.jinja2       |  4 +-
 .../cpp/templates/ack_packet.hpp.jinja2       |  2 +
 .../templates/macros/function_defs/cif.jinja2 | 71 ++++++++++++-------
 .../macros/function_defs/constructors.jinja2  | 27 ++++---
 .../cpp/templates/macros/packet/decls.jinja2  |  3 +
 .../backend/cpp/templates/packet.cpp.jinja2   |  6 +-
 .../backend/cpp/templates/packet.hpp.jinja2   |  3 +
 7 files changed, 79 insertions(+), 37 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..d69bfa4 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -23,7 +23,7 @@
 {%- import "macros/function_defs/bytes_required.jinja2" as bytes_req %}
 {%- from "macros/function_defs/match.jinja2" import match_ack %}
 {%- import "macros/function_defs/constructors.jinja2" as constructors %}
-{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos %}
+{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos, resize_field %}
 
 {%- macro ackvx_update_positions(packet, packet_name, type_helper) %}
 auto {{ packet_name }}::update_positions() -> void
@@ -423,6 +423,8 @@ auto {{ packet.name }}::update_packet_size() -> void
     m_header.pack_into(m_data.data());
 }
 
+{{ resize_field(packet) | trim }}
+
 {{ bytes_req.base_ack_bytes_required(packet, type_helper) | trim }}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..2b5d7a4 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -136,6 +136,7 @@ auto reset_{{ func_name }}() -> void;
 {{ members.command(packet, type_helper) | trim }}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+std::map<std::string, std::size_t> m_sizes;
 {% endmacro %}
 
 {%- macro ackvx_members(packet, type_helper) %}
@@ -214,6 +215,7 @@ public:
 protected:
     auto update_packet_size() -> void;
     auto min_bytes() const -> std::size_t;
+    auto resize_field(const std::string& name, const std::size_t size) -> void;
     virtual auto update_positions() -> void = 0;
     virtual auto sync() -> void = 0;
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..0694665 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -110,14 +110,15 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%       else %}
         m_data.insert(m_data.begin() + pos, sizeof(swapped), 0);
 {%       endif %}
-{%     else %}
-        m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(), 0);
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
         update_packet_size();
     }
 {%   endif %}
+{%   if not type_helper.is_scalar(field) %}
+    resize_field("{{ field.name }}", m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size());
+{%   endif %}
 {%   if type_helper.is_scalar(field) %}
 {%     if field.type_.reserved_bits > 0 %}
     std::memcpy(m_data.data() + pos + sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/, &swapped, sizeof(swapped));
@@ -143,20 +144,16 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
-        const auto pos{ m_positions.at("{{ field.name }}") };
 {%   if type_helper.is_scalar(field) %}
+        const auto pos{ m_positions.at("{{ field.name }}") };
 {%     if field.type_.reserved_bits > 0 %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/ + sizeof({{ type_helper.member_type(field) }}));
 {%     else %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-{%     if field.is_optional %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
+        resize_field("{{ field.name }}", 0);
         m_{{ field.name }}.reset();
-{%     else %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
-{%     endif %}
 {%   endif %}
         update_positions();
         update_packet_size();
@@ -258,15 +255,16 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {%     if field.is_optional %}
 if (m_{{ field.name }}.has_value()) {
     if (!m_{{ packet.cif0.name }}.{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
-        update_positions();
-        update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+} else {
+    reset_{{ field.name }}();
 }
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -297,15 +295,16 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
-        update_positions();
-        update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -332,15 +331,16 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
-        update_positions();
-        update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -398,7 +398,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         endif %}
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    curr_pos += m_{{ field.name }}->size();
+    curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 }
 {%     else %}
@@ -408,7 +408,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -427,7 +427,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
@@ -437,7 +437,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -459,7 +459,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
@@ -469,7 +469,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -477,4 +477,23 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 }
 {%   endif %}
 {% endif %}
-{% endmacro%}
\ No newline at end of file
+{% endmacro%}
+
+{%- macro resize_field(packet) %}
+auto {{ packet.name }}::resize_field(const std::string& name, const std::size_t size) -> void
+{
+    auto& packed_size = m_sizes[name];
+    if (size == packed_size) {
+        return;
+    }
+    const auto field_begin = m_data.begin() + m_positions.at(name);
+    if (size > packed_size) {
+        m_data.insert(field_begin + packed_size, size - packed_size, 0);
+    } else {
+        m_data.erase(field_begin + size, field_begin + packed_size);
+    }
+    packed_size = size;
+    update_positions();
+    update_packet_size();
+}
+{% endmacro%}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..b03bff0 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -143,7 +143,8 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%     if packet.cif7.enabled %}
@@ -184,7 +185,8 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -216,7 +218,8 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -369,7 +372,8 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}->size();
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
+    curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%       if packet.cif7.enabled %}
 {%         set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
@@ -391,7 +395,8 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
@@ -418,7 +423,8 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}->size();
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
+    curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 }
 {%     else %}
@@ -429,7 +435,8 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -451,7 +458,8 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}->size();
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
+    curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 }
 {%     else %}
@@ -462,7 +470,8 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-curr_pos += m_{{ field.name }}.size();
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2 b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
index b4d0984..127c148 100644
--- a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
@@ -112,4 +112,7 @@ std::string m_name{ "{{ packet.name }}" };
 {% endif %}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+{% if packet.is_context or packet.is_command %}
+std::map<std::string, std::size_t> m_sizes;
+{% endif %}
 {% endmacro %}
\ No newline at end of file
diff --git a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
index 37f5547..f407538 100644
--- a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
@@ -19,7 +19,7 @@
 {%- import "macros/function_defs.jinja2" as function_defs %}
 {%- from "macros/function_defs/bytes_required.jinja2" import bytes_required %}
 {%- from "macros/function_defs/match.jinja2" import match %}
-{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos %}
+{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos, resize_field %}
 {%- import "macros/function_defs/constructors.jinja2" as constructors %}
 {%- import "ack_packet.cpp.jinja2" as ack %}
 {%- import "macros/types/user_class.jinja2" as user_class %}
@@ -103,6 +103,10 @@ auto {{ packet.name }}::update_packet_size() -> void
 
 {{ update_positions(packet, type_helper) | trim }}
 
+{% if packet.is_context or packet.is_command %}
+{{ resize_field(packet) | trim }}
+
+{% endif %}
 {{ bytes_required(packet, type_helper) | trim}}
 
 {{ sync(packet, type_helper) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
index 6cb1806..b34386d 100644
--- a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
@@ -41,6 +41,9 @@ private:
     auto min_bytes() const -> std::size_t;
     auto update_packet_size() -> void;
     auto update_positions() -> void;
+{% if packet.is_context or packet.is_command %}
+    auto resize_field(const std::string& name, const std::size_t size) -> void;
+{% endif %}
     auto sync() -> void;
 
     {{ packet_.class_members(packet, type_helper) | indent(4) | trim }}
-- 
2.43.0


From 56e86ac070ee16ff79b3aba3a2a9385d50af5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 09/36] fix: name the warning/error fields after the CIF fields
 they report on

---
 src/vrtgen/parser/model/command.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..0bdbf80 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
@@ -456,6 +456,8 @@ class AcknowledgePacket(CommandPacket):
             if self.is_ack_s:
                 self.cif_1 = ctrl_packet.cif_1
             if self.is_ack_v or self.is_ack_x:
+                self.wif_0.enabled = True
+                self.eif_0.enabled = True
                 self.wif_1.enabled = True
                 self.eif_1.enabled = True
                 for field in ctrl_packet.cif_1.fields:
@@ -466,6 +468,8 @@ class AcknowledgePacket(CommandPacket):
             if self.is_ack_s:
                 self.cif_2 = ctrl_packet.cif_2
             if self.is_ack_v or self.is_ack_x:
+                self.wif_0.enabled = True
+                self.eif_0.enabled = True
                 self.wif_2.enabled = True
                 self.eif_2.enabled = True
                 for field in ctrl_packet.cif_2.fields:
-- 
2.43.0


From 26e49eb544263d9105704f721d430c2df1d3ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 10/36] fix: lay out acknowledgement warnings and errors by the
 indicator words and keep them in step

---
 .../cpp/templates/ack_packet.cpp.jinja2       | 287 +-----------------
 .../cpp/templates/ack_packet.hpp.jinja2       |   6 +-
 .../macros/function_defs/constructors.jinja2  | 177 +----------
 .../cpp/templates/macros/types/weif.jinja2    | 163 +++++-----
 4 files changed, 114 insertions(+), 519 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index d69bfa4..a1bb7ed 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -35,90 +35,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
-    if (m_{{ packet.wif0.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif0.name }}->size();
-    }
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
-    if (m_{{ packet.wif1.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif1.name }}->size();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
-    if (m_{{ packet.wif2.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif2.name }}->size();
-    }
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
-    if (m_{{ packet.eif0.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif0.name }}->size();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
-    if (m_{{ packet.eif1.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif1.name }}->size();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
-    if (m_{{ packet.eif2.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif2.name }}->size();
-    }
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
-    }
-{%   endfor %}
-{% endif %}
+    {{ weif.weif_positions(packet, type_helper) | indent(4) | trim }}
 }
 {% endmacro %}
 
@@ -134,205 +51,11 @@ auto {{ packet_name }}::sync() -> void
 {% if packet.controller_id.enabled and not type_helper.is_scalar(packet.controller_id) %}
     m_{{ packet.controller_id.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
 {% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->{{ field.name }}(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}.has_value()) {
-            m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif1.name }}"), m_{{ packet.wif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif1_enable(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ packet.wif1.name }}->{{ field.name }}(true);
-        m_{{ packet.wif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}.has_value()) {
-            m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif2.name }}"), m_{{ packet.wif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-        m_{{ packet.wif2.name }}->{{ field.name }}(true);
-        m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->{{ field.name }}(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}.has_value()) {
-            m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif1.name }}"), m_{{ packet.eif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif1_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif1.name }}->{{ field.name }}(true);
-        m_{{ packet.eif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}.has_value()) {
-            m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif2.name }}"), m_{{ packet.eif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif2_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif2.name }}->{{ field.name }}(true);
-        m_{{ packet.eif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
+{% if packet.warnings_enabled and packet.wif0.enabled %}
+    {{ weif.sync_weif(packet, [packet.wif0, packet.wif1, packet.wif2], true, type_helper) | indent(4) | trim }}
 {% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->none()) {
-        reset_{{ packet.wif1.name }}();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->none()) {
-        reset_{{ packet.wif2.name }}();
-    }
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->none()) {
-        reset_{{ packet.wif0.name }}();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->none()) {
-        reset_{{ packet.eif1.name }}();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->none()) {
-        reset_{{ packet.eif2.name }}();
-    }
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->none()) {
-        reset_{{ packet.eif0.name }}();
-    }
+{% if packet.errors_enabled and packet.eif0.enabled %}
+    {{ weif.sync_weif(packet, [packet.eif0, packet.eif1, packet.eif2], false, type_helper) | indent(4) | trim }}
 {% endif %}
 }
 {% endmacro %}
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 2b5d7a4..c37f275 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -173,17 +173,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index b03bff0..a02a2eb 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -17,6 +17,7 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 
+{%- import "macros/types/weif.jinja2" as weif %}
 {%- macro prologue(packet, type_helper) %}
 m_data.resize(min_bytes());
 auto curr_pos = std::size_t{};
@@ -523,54 +524,7 @@ curr_pos += m_sizes.at("{{ field.name }}");
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
-{% if packet.warnings_enabled %}
-    m_positions["{{ packet.wif0.name }}"] = curr_pos;
-{%   if packet.wif1.enabled %}
-    m_positions["{{ packet.wif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.wif2.enabled %}
-    m_positions["{{ packet.wif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-    m_positions["{{ packet.eif0.name }}"] = curr_pos;
-{%   if packet.eif1.enabled %}
-    m_positions["{{ packet.eif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.eif2.enabled %}
-    m_positions["{{ packet.eif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%   endfor %}
-{%   if packet.wif1.enabled %}
-{%     for field in packet.wif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.wif2.enabled %}
-{%     for field in packet.wif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%   endfor %}
-{%   if packet.eif1.enabled %}
-{%     for field in packet.eif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.eif2.enabled %}
-{%     for field in packet.eif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
+    {{ weif.weif_positions(packet, type_helper) | indent(4) | trim }}
 }
 {% endmacro %}
 
@@ -586,126 +540,17 @@ curr_pos += m_sizes.at("{{ field.name }}");
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
-{% if packet.warnings_enabled %}
-    if (m_{{ packet.cam.name }}.ack_w()) {
-        m_positions["{{ packet.wif0.name }}"] = curr_pos;
-        m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-        m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
-        curr_pos += m_{{ packet.wif0.name }}->size();
-{%   if packet.wif1.enabled %}
-        if (m_{{ packet.wif0.name }}->wif1_enable()) {
-            m_positions["{{ packet.wif1.name }}"] = curr_pos;
-            m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ packet.wif1.name }}->size();
-        }
-{%   endif %}
-{%   if packet.wif2.enabled %}
-        if (m_{{ packet.wif0.name }}->wif2_enable()) {
-            m_positions["{{ packet.wif2.name }}"] = curr_pos;
-            m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ packet.wif2.name }}->size();
-        }
-{%   endif %}
-    }
-{% endif %}
-{% if packet.errors_enabled %}
-    if (m_{{ packet.cam.name }}.ack_er()) {
-        m_positions["{{ packet.eif0.name }}"] = curr_pos;
-        m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-        m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
-        curr_pos += m_{{ packet.eif0.name }}->size();
-{%   if packet.eif1.enabled %}
-        if (m_{{ packet.eif0.name }}->eif1_enable()) {
-            m_positions["{{ packet.eif1.name }}"] = curr_pos;
-            m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ packet.eif1.name }}->size();
-        }
-{%   endif %}
-{%   if packet.eif2.enabled %}
-        if (m_{{ packet.eif0.name }}->eif2_enable()) {
-            m_positions["{{ packet.eif2.name }}"] = curr_pos;
-            m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ packet.eif2.name }}->size();
-        }
-{%   endif %}
-    }
-{% endif %}
-{% if packet.warnings_enabled %}
-    if (m_{{ packet.wif0.name }}.has_value()) {
-{%   for field in packet.wif0.fields if field.enabled %}
-        if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
-            m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_warnings->size();
-        }
-{%   endfor %}
-    }
-{%   if packet.wif1.enabled %}
-    if (m_{{ packet.wif1.name }}.has_value()) {
-{%     for field in packet.wif1.fields if field.enabled %}
-        if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
-            m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_warnings->size();
-        }
-{%     endfor %}
-    }
-{%   endif %}
-{%   if packet.wif2.enabled %}
-    if (m_{{ packet.wif2.name }}.has_value()) {
-{%     for field in packet.wif2.fields if field.enabled %}
-        if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
-            m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_warnings->size();
-        }
-{%     endfor %}
-    }
+{% for words, is_warning in [([packet.wif0, packet.wif1, packet.wif2], true), ([packet.eif0, packet.eif1, packet.eif2], false)] %}
+{%   if words[0].enabled and (packet.warnings_enabled if is_warning else packet.errors_enabled) %}
+    {{ weif.unpack_weif(packet, words, is_warning, type_helper) | indent(4) | trim }}
 {%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-    if (m_{{ packet.eif0.name }}.has_value()) {
-{%   for field in packet.eif0.fields if field.enabled %}
-        if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
-            m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_errors->size();
-        }
-{%   endfor %}
-    }
-{%   if packet.eif1.enabled %}
-    if (m_{{ packet.eif1.name }}.has_value()) {
-{%     for field in packet.eif1.fields if field.enabled %}
-        if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
-            m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_errors->size();
-        }
-{%     endfor %}
-    }
-{%   endif %}
-{%   if packet.eif2.enabled %}
-    if (m_{{ packet.eif2.name }}.has_value()) {
-{%     for field in packet.eif2.fields if field.enabled %}
-        if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
-            m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
-            curr_pos += m_{{ field.name }}_errors->size();
-        }
-{%     endfor %}
-    }
+{% endfor %}
+{% for words, is_warning in [([packet.wif0, packet.wif1, packet.wif2], true), ([packet.eif0, packet.eif1, packet.eif2], false)] %}
+{%   if words[0].enabled and (packet.warnings_enabled if is_warning else packet.errors_enabled) %}
+    {{ weif.unpack_weif_fields(packet, words, is_warning, type_helper) | indent(4) | trim }}
 {%   endif %}
-{% endif %}
+{% endfor %}
+    update_positions();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..25b092f 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -23,50 +23,14 @@
 
 auto {{ packet_name }}::reset_{{ weif.name }}() -> void
 {
-{% if weif.name == packet.wif0.name %}
-{%   if packet.wif1.enabled %}
-    reset_{{ packet.wif1.name }}();
-{%   endif %}
-{%   if packet.wif2.enabled %}
-    reset_{{ packet.wif2.name }}();
-{%   endif %}
-{% elif weif.name == packet.eif0.name %}
-{%   if packet.eif1.enabled %}
-    reset_{{ packet.eif1.name }}();
-{%   endif %}
-{%   if packet.eif2.enabled %}
-    reset_{{ packet.eif2.name }}();
-{%   endif %}
-{% endif %}
-    if (m_{{ weif.name }}.has_value()) {
-{% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+{% set suffix = '_warnings' if is_warning else '_errors' %}
+{% set weif_words = [packet.wif0, packet.wif1, packet.wif2] if is_warning else [packet.eif0, packet.eif1, packet.eif2] %}
+{% for word in weif_words if word.enabled and (word.name == weif.name or weif.name == weif_words[0].name) %}
+{%   for field in word.fields if field.enabled %}
+    m_{{ field.name }}{{ suffix }}.reset();
+{%   endfor %}
 {% endfor %}
-        const auto pos{ m_positions.at("{{ weif.name }}") };
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
-        m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
-{% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
-        }
-{% endif %}
-        update_positions();
-        update_packet_size();
-    }
+    sync();
 }
 
 {% for field in weif.fields if field.enabled %}
@@ -87,26 +51,7 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
-    if (!m_{{ weif.name }}.has_value()) {
-        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
-        update_positions();
-        update_packet_size();
-    }
-    if (!m_{{ weif.name }}->{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ func_name }}"), m_{{ func_name }}->size(), 0);
-        m_{{ weif.name }}->{{ field.name }}(true);
-        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
-        update_positions();
-        update_packet_size();
-    }
-    m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
-{% if is_warning %}
-    m_{{ packet.cam.name }}.ack_w(true);
-{% else %}
-    m_{{ packet.cam.name }}.ack_er(true);
-{% endif %}
-    m_cam.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    sync();
 }
 
 /**
@@ -114,17 +59,99 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    sync();
 }
 
 {% endfor %}
 {% endmacro %}
 
+{#- The indicator words and the acknowledge flag follow from the responses that have a value -#}
+{%- macro sync_weif(packet, weif_words, is_warning, type_helper) %}
+{% set suffix = '_warnings' if is_warning else '_errors' %}
+{% set base = weif_words[0].name %}
+{% for weif in weif_words if weif.enabled %}
+{{ type_helper.member_type(weif) }} {{ weif.name }}{};
+{%   for field in weif.fields if field.enabled %}
+{{ weif.name }}.{{ field.name }}(m_{{ field.name }}{{ suffix }}.has_value());
+{%   endfor %}
+{% endfor %}
+{% for weif in weif_words[1:] if weif.enabled %}
+{{ base }}.{{ 'wif' if is_warning else 'eif' }}{{ weif.name[-1] }}_enable(!{{ weif.name }}.none());
+{% endfor %}
+{% for weif in weif_words if weif.enabled %}
+if ({{ weif.name }}.none()) {
+    m_{{ weif.name }}.reset();
+    resize_field("{{ weif.name }}", 0);
+} else {
+    m_{{ weif.name }} = {{ weif.name }};
+    resize_field("{{ weif.name }}", m_{{ weif.name }}->size());
+    m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+}
+{% endfor %}
+m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}(m_{{ base }}.has_value());
+m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+{% for weif in weif_words if weif.enabled %}
+{%   for field in weif.fields if field.enabled %}
+{%     set field_name = field.name + suffix %}
+resize_field("{{ field_name }}", m_{{ field_name }}.has_value() ? m_{{ field_name }}->size() : 0);
+if (m_{{ field_name }}.has_value()) {
+    m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
+}
+{%   endfor %}
+{% endfor %}
+{% endmacro %}
+
+{#- Position of every indicator word and response, present or not -#}
+{%- macro weif_positions(packet, type_helper) %}
+{% set words = ([packet.wif0, packet.wif1, packet.wif2] if packet.warnings_enabled else []) + ([packet.eif0, packet.eif1, packet.eif2] if packet.errors_enabled else []) %}
+{% for weif in words if weif.enabled %}
+m_positions["{{ weif.name }}"] = curr_pos;
+curr_pos += m_sizes["{{ weif.name }}"];
+{% endfor %}
+{% for weif in words if weif.enabled %}
+{%   for field in weif.fields if field.enabled %}
+{%     set field_name = field.name + ('_warnings' if weif.name[0] == 'w' else '_errors') %}
+m_positions["{{ field_name }}"] = curr_pos;
+curr_pos += m_sizes["{{ field_name }}"];
+{%   endfor %}
+{% endfor %}
+{% endmacro %}
+
+{%- macro unpack_weif(packet, weif_words, is_warning, type_helper) %}
+if (m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}()) {
+{% for weif in weif_words if weif.enabled %}
+{%   if not loop.first %}
+    if (m_{{ weif_words[0].name }}->{{ 'wif' if is_warning else 'eif' }}{{ weif.name[-1] }}_enable()) {
+        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
+        m_{{ weif.name }}->unpack_from(m_data.data() + curr_pos);
+        m_sizes["{{ weif.name }}"] = m_{{ weif.name }}->size();
+        curr_pos += m_{{ weif.name }}->size();
+    }
+{%   else %}
+    m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
+    m_{{ weif.name }}->unpack_from(m_data.data() + curr_pos);
+    m_sizes["{{ weif.name }}"] = m_{{ weif.name }}->size();
+    curr_pos += m_{{ weif.name }}->size();
+{%   endif %}
+{% endfor %}
+}
+{% endmacro %}
+
+{%- macro unpack_weif_fields(packet, weif_words, is_warning, type_helper) %}
+{% for weif in weif_words if weif.enabled %}
+{%   for field in weif.fields if field.enabled %}
+{%     set field_name = field.name + ('_warnings' if is_warning else '_errors') %}
+if (m_{{ weif.name }}.has_value() && m_{{ weif.name }}->{{ field.name }}()) {
+    m_{{ field_name }} = {{ type_helper.member_type(field) }}{};
+    m_{{ field_name }}->unpack_from(m_data.data() + curr_pos);
+    m_sizes["{{ field_name }}"] = m_{{ field_name }}->size();
+    curr_pos += m_{{ field_name }}->size();
+}
+{%   endfor %}
+{% endfor %}
+{% endmacro %}
+
 {%- macro wif_members(wif, type_helper) %}
 {{ basic.member(wif, type_helper) | trim }}
 {% for field in wif.fields if field.enabled %}
-- 
2.43.0


From b253e1f15f66c444aa982ddf6f009e4d951138ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 11/36] fix: check the action mode against the acknowledge
 requests after all of them are read

---
 src/vrtgen/parser/model/command.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 0bdbf80..f991ca1 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -94,20 +94,22 @@ class ControlAcknowledgeMode(PackedStruct):
                     self.__dict__[key].value = parse_action_mode(val)
                     self.__dict__[key].enabled = True
                     self.__dict__[key].required = True
-                    # Check for valid combinations of action_mode and acknowledge requests
-                    if self.action_mode.value == enums.ActionMode.NO_ACTION:
-                        if not self.req_s.value:
-                            raise ValueError('When action_mode set to none, req_s must be true')
-                        elif self.req_x.value or self.req_v.value:
-                            raise ValueError('When action_mode set to none, req_x and req_v must be false')
-                        elif self.req_w.value or self.req_er.value:
-                            raise ValueError('When action_mode set to none, req_w and req_er must be false')
-                        
+
             # elif key == 'timing_control':
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
 
+        # Check for valid combinations of action_mode and acknowledge requests
+        # once all of them are known, in whatever order they were given
+        if self.action_mode.required and self.action_mode.value == enums.ActionMode.NO_ACTION:
+            if not self.req_s.value:
+                raise ValueError('When action_mode set to none, req_s must be true')
+            elif self.req_x.value or self.req_v.value:
+                raise ValueError('When action_mode set to none, req_x and req_v must be false')
+            elif self.req_w.value or self.req_er.value:
+                raise ValueError('When action_mode set to none, req_w and req_er must be false')
+
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
         self._parse_mapping(mapping)
-- 
2.43.0


From ccca2baf5fefb19649ff8b3672efaf79dbd3b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 12/36] fix: query-state acknowledgements with required fields
 generate and declare their size

---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 .../cpp/templates/macros/function_defs/constructors.jinja2  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index a02a2eb..2e77ea2 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -571,6 +571,7 @@ curr_pos += m_sizes.at("{{ field.name }}");
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
-- 
2.43.0


From b8313317cba22290a346dc394058211a08d2f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 13/36] fix: acknowledgement recognition leaves open what the
 definition leaves open

---
 .../backend/cpp/templates/macros/function_defs/match.jinja2  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..5f3b71e 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -132,6 +132,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name in ['tsi', 'tsf', 'tsm'] and field.value.value == 0b111 %}
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +155,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
-- 
2.43.0


From 215ed7cb503afe98c8eff9d892446411dfb8f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 14/36] fix: a timestamp declared as none takes no room in the
 packet

---
 src/vrtgen/parser/model/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..0db27fe 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -106,6 +106,13 @@ class Packet:
         if self.class_id.enabled:
             self.header.class_id_enable.enabled = True
             self.header.class_id_enable.value = True
+        # A timestamp declared as 'none' is not part of the packet
+        if self.timestamp.tsi.value == TSI.NONE:
+            self.timestamp.integer.enabled = False
+            self.timestamp.integer.required = False
+        if self.timestamp.tsf.value == TSF.NONE:
+            self.timestamp.fractional.enabled = False
+            self.timestamp.fractional.required = False
         if self.timestamp.integer.enabled:
             self.header.tsi.enabled = True
             self.header.tsi.required = True
-- 
2.43.0


From 4fe98bd215f3501231b2f89feb5cbd19913b716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 15/36] fix: one-bit enumerations in user-defined trailers
 compile

---
 .../backend/cpp/templates/macros/types/user_class.jinja2      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..d70295d 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -79,6 +79,8 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
     if ({{ field.name }}_enable()) {
 {%   if field.is_enum and field.packed_tag.bits > 1 %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
+{%   elif field.is_enum %}
+        return static_cast<{{ value_type }}>(m_packed.get<{{ field.packed_tag.position }}>());
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
 {%   endif %}
@@ -91,6 +93,8 @@ auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
     {{ field.name }}_enable(true);
 {%   if field.is_enum and field.packed_tag.bits > 1 %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
+{%   elif field.is_enum %}
+    m_packed.set<{{ field.packed_tag.position }}>(static_cast<bool>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
 {%   endif %}
-- 
2.43.0


From 737bf755659229ffde017636c1a8fec15d25d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 16/36] fix: query-state acknowledgements declare the
 enumerations of discrete I/O fields

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..40c62a1 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -304,7 +304,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_ack):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0


From 3187f6868827d6086dfe7533eeb2e45e1f7a2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 17/36] fix: recognition and decoding stay within the bytes
 received

A packet class's match() rejects data shorter than the class's fixed part or
than the size the header declares, and the decoding constructors throw
std::out_of_range instead of reading past the packet.
---
 include/vrtgen/packing.hpp                    |  1 +
 include/vrtgen/packing/bounds.hpp             | 59 ++++++++++++++++
 include/vrtgen/packing/cif0.hpp               | 28 ++++++++
 include/vrtgen/packing/cif1.hpp               | 24 +++++++
 .../macros/function_defs/constructors.jinja2  | 67 ++++++++++++-------
 .../macros/function_defs/match.jinja2         | 50 ++++++++++++--
 .../templates/macros/types/user_class.jinja2  |  6 +-
 .../cpp/templates/macros/types/weif.jinja2    |  6 +-
 8 files changed, 207 insertions(+), 34 deletions(-)
 create mode 100644 include/vrtgen/packing/bounds.hpp

diff --git a/include/vrtgen/packing.hpp b/include/vrtgen/packing.hpp
index 0a03f59..fd7e97e 100644
--- a/include/vrtgen/packing.hpp
+++ b/include/vrtgen/packing.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <vrtgen/packing/bounds.hpp>
 #include <vrtgen/packing/cif0.hpp>
 #include <vrtgen/packing/cif1.hpp>
 #include <vrtgen/packing/cif2.hpp>
diff --git a/include/vrtgen/packing/bounds.hpp b/include/vrtgen/packing/bounds.hpp
new file mode 100644
index 0000000..ea0f222
--- /dev/null
+++ b/include/vrtgen/packing/bounds.hpp
@@ -0,0 +1,59 @@
+/*
+ * Copyright (C) 2023 Geon Technologies, LLC
+ *
+ * This file is part of vrtgen.
+ *
+ * vrtgen is free software: you can redistribute it and/or modify it under the
+ * terms of the GNU Lesser General Public License as published by the Free
+ * Software Foundation, either version 3 of the License, or (at your option)
+ * any later version.
+ *
+ * vrtgen is distributed in the hope that it will be useful, but WITHOUT ANY
+ * WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+ * FOR A PARTICULAR PURPOSE.  See the GNU Lesser General Public License for
+ * more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with this program.  If not, see http://www.gnu.org/licenses/.
+ */
+
+#pragma once
+
+#include <cstddef>
+#include <cstdint>
+#include <span>
+#include <stdexcept>
+
+namespace vrtgen::packing {
+
+/**
+ * @brief Throw std::out_of_range unless a range lies within the data
+ * @param data Bytes being decoded
+ * @param pos Position of the first byte of the range
+ * @param size Number of bytes in the range
+ */
+inline void require_bytes(std::span<const uint8_t> data, std::size_t pos, std::size_t size)
+{
+    if (pos > data.size() || size > data.size() - pos) {
+        throw std::out_of_range("packet is too short for its contents");
+    }
+}
+
+/**
+ * @brief Unpack a field after checking that all of its bytes are there
+ * @param field Field to unpack
+ * @param data Bytes being decoded
+ * @param pos Position of the field's first byte
+ */
+template <typename T>
+inline void unpack_field(T& field, std::span<const uint8_t> data, std::size_t pos)
+{
+    require_bytes(data, pos, field.size());
+    if constexpr (requires { T::packed_size(data.data()); }) {
+        // The length of the field follows from its first words
+        require_bytes(data, pos, T::packed_size(data.data() + pos));
+    }
+    field.unpack_from(data.data() + pos);
+}
+
+} // end namespace vrtgen::packing
diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 725d049..d9ddaa2 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1117,6 +1117,17 @@ public:
         std::fill(pad_ptr, buffer_ptr + number_of_words() * 4, 0);
     }
 
+    /**
+     * @brief Number of bytes GPS_ASCII occupies in a buffer
+     * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint64_t> packed;
+        packed.unpack_from(buffer_ptr);
+        return packed.size() + std::size_t{ packed.get<31,32,uint32_t>() } * 4;
+    }
+
     /**
      * @brief Unpack buffer bytes into GPS_ASCII
      * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
@@ -1466,6 +1477,23 @@ public:
         }
     }
 
+    /**
+     * @brief Number of bytes ContextAssociationLists occupies in a buffer
+     * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint64_t> packed;
+        packed.unpack_from(buffer_ptr);
+        const std::size_t async_channels = packed.get<14,15,uint16_t>();
+        const std::size_t entries = std::size_t{ packed.get<56,9,uint16_t>() }
+            + packed.get<40,9,uint16_t>()
+            + packed.get<31,16,uint16_t>()
+            + async_channels
+            + (packed.get<15>() ? async_channels : 0);
+        return packed.size() + entries * sizeof(uint32_t);
+    }
+
     /**
      * @brief Unpack buffer bytes into ContextAssociationLists
      * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 524f4f0..e522667 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1050,6 +1050,18 @@ public:
         }
     }
 
+    /**
+     * @brief Number of bytes SectorStepScan occupies in a buffer
+     * @param buffer_ptr Pointer to beginning of SectorStepScan bytes in the buffer
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint32_t> packed;
+        packed.unpack_from(buffer_ptr + sizeof(uint32_t));
+        return sizeof(uint32_t) + packed.size() + SectorStepScanCIF{}.size()
+            + packed.get<11,12,uint16_t>() * T{}.size();
+    }
+
     void unpack_from(const uint8_t* buffer_ptr)
     {
         auto* ptr = buffer_ptr;
@@ -1160,6 +1172,18 @@ public:
         std::fill(buffer_ptr, end_ptr, 0);
     }
 
+    /**
+     * @brief Number of bytes IndexList occupies in a buffer
+     * @param buffer_ptr Pointer to beginning of IndexList bytes in the buffer
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint32_t> packed;
+        packed.unpack_from(buffer_ptr + sizeof(uint32_t));
+        return sizeof(uint32_t) + packed.size()
+            + (packed.get<19,20,uint32_t>() * sizeof(T) + 3) / 4 * 4;
+    }
+
     void unpack_from(const uint8_t* buffer_ptr)
     {
         auto* ptr = buffer_ptr;
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 2e77ea2..1bf0cc1 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -255,14 +255,15 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 {% endmacro %}
 
 {%- macro unpack_prologue(packet, type_helper) %}
-m_{{ packet.header.name }}.unpack_from(data.data());
-m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
-std::memcpy(m_data.data(), data.data(), m_data.size());
+vrtgen::packing::unpack_field(m_{{ packet.header.name }}, data, 0);
+const auto packet_bytes = m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t);
+vrtgen::packing::require_bytes(data, 0, packet_bytes);
+m_data.assign(data.begin(), data.begin() + packet_bytes);
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
-m_{{ packet.stream_id.name }}.unpack_from(m_data.data() + curr_pos);
+vrtgen::packing::unpack_field(m_{{ packet.stream_id.name }}, m_data, curr_pos);
 curr_pos += m_{{ packet.stream_id.name }}.size();
 {%   else %}
 curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
@@ -270,7 +271,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packe
 {% endif %}
 {% if packet.class_id.enabled %}
 m_positions["{{ packet.class_id.name }}"] = curr_pos;
-m_{{ packet.class_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.class_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.class_id.name }}, m_data, m_positions.at("{{ packet.class_id.name }}"));
 curr_pos += m_{{ packet.class_id.name }}.size();
 {% endif %}
 {% if packet.timestamp.enabled %}
@@ -286,7 +287,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.fractional) }});
 {% if packet.cam.enabled %}
 m_positions["{{ packet.cam.name }}"] = curr_pos;
 curr_pos += m_{{ packet.cam.name }}.size();
-m_{{ packet.cam.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cam.name }}, m_data, m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
 {% if packet.message_id.enabled %}
 m_positions["{{ packet.message_id.name }}"] = curr_pos;
@@ -297,7 +298,7 @@ m_positions["{{ packet.controllee_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controllee_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controllee_id) }}); // {{ packet.controllee_id.name }}
 {%   else %}
-m_{{ packet.controllee_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controllee_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controllee_id.name }}, m_data, m_positions.at("{{ packet.controllee_id.name }}"));
 curr_pos += m_{{ packet.controllee_id.name }}.size();
 {%   endif %}
 {% endif %}
@@ -306,16 +307,17 @@ m_positions["{{ packet.controller_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controller_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controller_id) }}); // {{ packet.controller_id.name }}
 {%   else %}
-m_{{ packet.controller_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controller_id.name }}, m_data, m_positions.at("{{ packet.controller_id.name }}"));
 curr_pos += m_{{ packet.controller_id.name }}.size();
 {%   endif %}
 {% endif %}
+vrtgen::packing::require_bytes(m_data, 0, curr_pos);
 {% endmacro%}
 
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
-m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cif0.name }}, m_data, m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
 {% if packet.cif1.enabled %}
@@ -323,11 +325,15 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
-    m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+if (!m_{{ packet.cif0.name }}.cif1_enable()) {
+    // Left out by the sender, reads as zero
+    m_data.resize(std::max(m_data.size(), min_bytes()));
+}
+vrtgen::packing::unpack_field(m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
 {% endif %}
@@ -336,11 +342,15 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
-    m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+if (!m_{{ packet.cif0.name }}.cif2_enable()) {
+    // Left out by the sender, reads as zero
+    m_data.resize(std::max(m_data.size(), min_bytes()));
+}
+vrtgen::packing::unpack_field(m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
 {% endif %}
@@ -349,11 +359,15 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
-    m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+if (!m_{{ packet.cif0.name }}.cif7_enable()) {
+    // Left out by the sender, reads as zero
+    m_data.resize(std::max(m_data.size(), min_bytes()));
+}
+vrtgen::packing::unpack_field(m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
 {% endif %}
@@ -372,7 +386,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
@@ -384,7 +398,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
-    m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
 }
@@ -395,13 +409,13 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
-m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+vrtgen::packing::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
 {%     endif %}
@@ -423,7 +437,7 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
@@ -435,7 +449,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
@@ -458,7 +472,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
@@ -470,13 +484,17 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
 {%   endfor %}
 {% endif %}
+vrtgen::packing::require_bytes(m_data, 0, curr_pos);
+if (m_data.size() != m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t)) {
+    update_packet_size();
+}
 {% endmacro %}
 
 {%- macro unpack_constructor(packet, type_helper) %}
@@ -489,8 +507,9 @@ curr_pos += m_sizes.at("{{ field.name }}");
 {% if packet.is_data %}
     m_positions["payload"] = curr_pos;
 {%   if packet.trailer.enabled %}
+    vrtgen::packing::require_bytes(m_data, curr_pos, m_{{ packet.trailer.name }}.size());
     m_positions["{{ packet.trailer.name }}"] = m_data.size() - m_{{ packet.trailer.name }}.size();
-    m_{{ packet.trailer.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
+    vrtgen::packing::unpack_field(m_{{ packet.trailer.name }}, m_data, m_positions.at("{{ packet.trailer.name }}"));
 {%   endif %}
 {% endif %}
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 5f3b71e..9f7c527 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -17,11 +17,54 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 
+{#- The packet is complete and holds at least its prologue (and trailer) #}
+{%- macro check_length(packet, type_helper) %}
+auto {{ packet.header.name }} = {{ type_helper.value_type(packet.header) }}{};
+auto min_size = {{ packet.header.name }}.size();
+{% if packet.stream_id.enabled %}
+min_size += sizeof(uint32_t); // {{ packet.stream_id.name }}
+{% endif %}
+{% if packet.class_id.enabled %}
+min_size += {{ type_helper.value_type(packet.class_id) }}{}.size(); // {{ packet.class_id.name }}
+{% endif %}
+{% if packet.timestamp.enabled %}
+{%   if packet.timestamp.integer.enabled %}
+min_size += sizeof({{ type_helper.value_type(packet.timestamp.integer) }}); // {{ packet.timestamp.integer.name }}
+{%   endif %}
+{%   if packet.timestamp.fractional.enabled %}
+min_size += sizeof({{ type_helper.value_type(packet.timestamp.fractional) }}); // {{ packet.timestamp.fractional.name }}
+{%   endif %}
+{% endif %}
+{% if packet.cam.enabled %}
+min_size += {{ type_helper.value_type(packet.cam) }}{}.size(); // {{ packet.cam.name }}
+{% endif %}
+{% if packet.message_id.enabled %}
+min_size += sizeof({{ type_helper.value_type(packet.message_id) }}); // {{ packet.message_id.name }}
+{% endif %}
+{% for field in [packet.controllee_id, packet.controller_id] if field.enabled %}
+{%   if type_helper.is_scalar(field) %}
+min_size += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+{%   else %}
+min_size += {{ type_helper.member_type(field) }}{}.size(); // {{ field.name }}
+{%   endif %}
+{% endfor %}
+{% if packet.is_data and packet.trailer.enabled %}
+min_size += {{ type_helper.value_type(packet.trailer) }}{}.size(); // {{ packet.trailer.name }}
+{% endif %}
+if (data.size() < min_size) {
+    return { "Packet is too short." };
+}
+{{ packet.header.name }}.unpack_from(data.data());
+if (const std::size_t packet_bytes = {{ packet.header.name }}.packet_size() * sizeof(uint32_t);
+    packet_bytes < min_size || packet_bytes > data.size()) {
+    return { "Failed to match packet size." };
+}
+{%- endmacro %}
+
 {%- macro match(packet, type_helper) %}
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
-    auto header = {{ type_helper.value_type(packet.header) }}{};
-    {{ packet.header.name }}.unpack_from(data.data());
+    {{ check_length(packet, type_helper) | indent(4) | trim }}
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
@@ -123,8 +166,7 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {%- macro match_ack(packet, packet_name, type_helper, is_vx) %}
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
-    auto header = {{ type_helper.value_type(packet.header) }}{};
-    {{ packet.header.name }}.unpack_from(data.data());
+    {{ check_length(packet, type_helper) | indent(4) | trim }}
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index d70295d..a51b4b3 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -219,7 +219,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void
+    auto unpack_from(const uint8_t* buffer_ptr) -> void
     {
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
@@ -285,7 +285,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void;
+    auto unpack_from(const uint8_t* buffer_ptr) -> void;
 {% endif %}
 
 private:
@@ -322,7 +322,7 @@ auto {{ class.type_ }}::pack_into(uint8_t* buffer_ptr) const -> void
     m_packed.pack_into(buffer_ptr);
 }
 
-auto {{ class.type_ }}::unpack_from(uint8_t* buffer_ptr) -> void
+auto {{ class.type_ }}::unpack_from(const uint8_t* buffer_ptr) -> void
 {
     m_packed.unpack_from(buffer_ptr);
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 25b092f..e05917b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -124,13 +124,13 @@ if (m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}()) {
 {%   if not loop.first %}
     if (m_{{ weif_words[0].name }}->{{ 'wif' if is_warning else 'eif' }}{{ weif.name[-1] }}_enable()) {
         m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_{{ weif.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::packing::unpack_field(*m_{{ weif.name }}, m_data, curr_pos);
         m_sizes["{{ weif.name }}"] = m_{{ weif.name }}->size();
         curr_pos += m_{{ weif.name }}->size();
     }
 {%   else %}
     m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-    m_{{ weif.name }}->unpack_from(m_data.data() + curr_pos);
+    vrtgen::packing::unpack_field(*m_{{ weif.name }}, m_data, curr_pos);
     m_sizes["{{ weif.name }}"] = m_{{ weif.name }}->size();
     curr_pos += m_{{ weif.name }}->size();
 {%   endif %}
@@ -144,7 +144,7 @@ if (m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}()) {
 {%     set field_name = field.name + ('_warnings' if is_warning else '_errors') %}
 if (m_{{ weif.name }}.has_value() && m_{{ weif.name }}->{{ field.name }}()) {
     m_{{ field_name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field_name }}->unpack_from(m_data.data() + curr_pos);
+    vrtgen::packing::unpack_field(*m_{{ field_name }}, m_data, curr_pos);
     m_sizes["{{ field_name }}"] = m_{{ field_name }}->size();
     curr_pos += m_{{ field_name }}->size();
 }
-- 
2.43.0


From 075f06ccf02f4a26b871fccb324300fab0356377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 18/36] fix: extension control packets with further indicator
 words carry CIF0

---
 src/vrtgen/parser/model/command.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index f991ca1..d416bc7 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -242,6 +242,13 @@ class ExtensionControlPacket(ControlPacket):
         self.cif_0.enabled = False
         self.cif_0.required = False
 
+    def _update_header(self):
+        # The other indicator words are announced by bits of CIF0
+        if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:
+            self.cif_0.enabled = True
+            self.cif_0.required = True
+        super()._update_header()
+
 @dataclass
 class WarningErrorFields(PackedStruct):
     """
-- 
2.43.0


From 1bd6f561831927cf86e07948fa27ffa4d9b4975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 19/36] fix: IPv6 endpoints compile

The endpoint template named the IPv4 members of sockaddr_in directly, so the
published endpoint::udp::v6 / socket::udp::v6 / socket::tcp::v6 types could
not be instantiated.
---
 include/vrtgen/socket/socket_endpoint.hpp | 72 +++++++++++++++++++++--
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..23f73fb 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -22,6 +22,10 @@
 
 #include <functional>
 #include <algorithm>
+#include <cstring>
+#include <iostream>
+#include <stdexcept>
+#include <string>
 #include <arpa/inet.h>
 
 namespace vrtgen {
@@ -62,6 +66,33 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Access the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the address family from
+     * @return Reference to the address family of the given sockaddr
+     */
+    static auto& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_family;
+    }
+    /**
+     * @brief Access the port member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port, in network byte order, of the given sockaddr
+     */
+    static auto& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    /**
+     * @brief Access the port member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Constant reference to the port, in network byte order, of the given sockaddr
+     */
+    static const auto& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +124,33 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Access the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the address family from
+     * @return Reference to the address family of the given sockaddr
+     */
+    static auto& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_family;
+    }
+    /**
+     * @brief Access the port member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port, in network byte order, of the given sockaddr
+     */
+    static auto& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    /**
+     * @brief Access the port member of the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Constant reference to the port, in network byte order, of the given sockaddr
+     */
+    static const auto& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -105,9 +163,11 @@ public:
 template <int domain_type, int socket_type>
 class socket_endpoint
 {    
+    using traits_type = endpoint::detail::endpoint_traits<domain_type>;
+
 public:
-    using sockaddr_type = typename endpoint::detail::endpoint_traits<domain_type>::sockaddr_type;
-    using address_type = typename endpoint::detail::endpoint_traits<domain_type>::address_type;
+    using sockaddr_type = typename traits_type::sockaddr_type;
+    using address_type = typename traits_type::address_type;
 
     /**
      * @brief Default constructor.
@@ -138,8 +198,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        traits_type::family(m_sockaddr) = domain_type;
+        traits_type::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +255,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(traits_type::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +264,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        traits_type::port(m_sockaddr) = htons(port);
     }
 
     /**
-- 
2.43.0


From 6c358d1cf08cc8ca14324f167a5fa51ad84ee35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 20/36] fix: sockets close exactly what they own, once

close() left the descriptor number behind, so is_open() stayed true and a
second close (the destructor's) could close a descriptor that meanwhile
belonged to somebody else.  An accepted connection was never closed and did
not follow timeout(), and writing to a connection the peer had closed raised
SIGPIPE instead of returning the documented -1.
---
 include/vrtgen/socket/socket_base.hpp |  5 +++-
 include/vrtgen/socket/tcp.hpp         | 42 +++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..760f1df 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -59,7 +59,10 @@ public:
      */
     void close()
     {
-        ::close(m_socket);
+        if (m_socket != INVALID_SOCKET) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..6067083 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -53,7 +53,34 @@ public:
     /**
      * @brief Destructor
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        m_close_connected();
+    }
+
+    /**
+     * @brief Close the socket and, if there is one, the accepted connection
+     */
+    void close()
+    {
+        m_close_connected();
+        base_type::close();
+    }
+
+    /**
+     * @brief Set receive timeout for socket and, if there is one, for the accepted connection
+     * @param timeout The desired socket receive timeout (in seconds)
+     */
+    void timeout(const size_t timeout)
+    {
+        base_type::timeout(timeout);
+        if (m_is_connected()) {
+            struct timeval tv;
+            tv.tv_sec = timeout;
+            tv.tv_usec = 0;
+            setsockopt(m_connected_socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+        }
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +108,7 @@ public:
         if (res < 0) {
             return false;
         }
+        m_close_connected();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -95,9 +123,9 @@ public:
     ssize_t write_some(const void* data, const size_t len)
     {
         if (m_is_connected()) {
-            return write(m_connected_socket, data, len);
+            return ::send(m_connected_socket, data, len, MSG_NOSIGNAL);
         }
-        return write(this->m_socket, data, len);
+        return ::send(this->m_socket, data, len, MSG_NOSIGNAL);
     }
 
     /**
@@ -117,6 +145,14 @@ public:
 private:
     int m_connected_socket = this->INVALID_SOCKET;
 
+    void m_close_connected()
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
     bool m_is_connected() const noexcept
     {
         return m_connected_socket != this->INVALID_SOCKET;
-- 
2.43.0


From 6c8c7397f999d8fc49038f2c97b4a3de31160d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:32 +0000
Subject: [PATCH 21/36] fix: define the setter of user-defined stream
 identifiers

The class declares it, but its definition was left out.
---
 .../cpp/templates/macros/function_defs/stream_id.jinja2    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
index 32ca6a6..8f99ba5 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
@@ -34,7 +34,12 @@ auto {{ packet.name }}::{{ packet.stream_id.name }}() const -> {{ type_helper.me
 {% endif %}
 }
 
-{% if not packet.stream_id.user_defined %}
+{% if packet.stream_id.user_defined %}
+auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }}& value) -> void
+{
+    m_{{ packet.stream_id.name }} = value;
+}
+{% else %}
 auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }} value) -> void
 {
     auto swapped{ vrtgen::swap::to_be(value) };
-- 
2.43.0


From ca6505b70757b2af88b3abae426da904018a742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 22/36] fix: collect each command's own acknowledgements, whole

send_packet matched acknowledgements against its whole 64 KiB buffer instead
of the bytes received, took whatever arrived first for the answer (a late
answer to an earlier command, on a stream half a packet or several), let a
datagram from anywhere replace the controllee's endpoint, and after a timeout
went on waiting in the future's destructor.
---
 include/vrtgen/nats/utility.hpp |  21 ++--
 include/vrtgen/socket/tcp.hpp   |  14 +++
 include/vrtgen/utility.hpp      | 164 +++++++++++++++++++++++---------
 3 files changed, 141 insertions(+), 58 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..c563ec2 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -19,10 +19,13 @@
 
 #pragma once
 
+#include <algorithm>
 #include <string>
 #include <chrono>
+#include <memory>
 #include <stdexcept>
 
+#include <vrtgen/utility.hpp>
 #include "client.hpp"
 
 namespace vrtgen {
@@ -33,21 +36,17 @@ auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT
     // Send packet
     client.publish(subject, packet.data(), client.inbox());
     // Receive acks on unique reply subject
-    const auto recv_ack = [&client](auto& ack)
+    auto message = std::unique_ptr<vrtgen::nats::message>{};
+    const auto next = [&message, &client](detail::clock::time_point deadline) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using namespace std::chrono_literals;
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (auto msg = client.next_inbox_msg(2s)) {
-            if (auto match_err = ack_t::match(msg->data())) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ msg->data() });
-        } else {
+        const auto wait = std::chrono::ceil<std::chrono::milliseconds>(deadline - detail::clock::now());
+        message = client.next_inbox_msg(std::max(wait, std::chrono::milliseconds{ 0 }));
+        if (message == nullptr) {
             throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
+        return message->data();
     };
-    (recv_ack(acks), ...);
+    detail::receive_acks(next, packet, acks...);
 }
 
 } // end namespace vrtgen
\ No newline at end of file
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 6067083..fda3643 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -142,6 +142,20 @@ public:
         return read(this->m_socket, data, len);
     }
 
+    /**
+     * @brief Look at the data that has arrived on the socket without taking it off or waiting for it
+     * @param data Pointer to start of buffer where message data will be written
+     * @param len Size of data buffer
+     * @return Number of bytes written to the buffer, 0 if the peer closed the connection, otherwise -1
+     */
+    ssize_t peek_some(void* data, const size_t len)
+    {
+        if (m_is_connected()) {
+            return recv(m_connected_socket, data, len, MSG_PEEK | MSG_DONTWAIT);
+        }
+        return recv(this->m_socket, data, len, MSG_PEEK | MSG_DONTWAIT);
+    }
+
 private:
     int m_connected_socket = this->INVALID_SOCKET;
 
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..f6d8c8f 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -22,10 +22,14 @@
 #include <string>
 #include <stdexcept>
 #include <array>
-#include <future>
+#include <chrono>
+#include <cstdint>
+#include <optional>
 #include <sstream>
+#include <thread>
 #include <utility>
 #include <span>
+#include <poll.h>
 #include <vrtgen/socket.hpp>
 
 namespace vrtgen {
@@ -58,32 +62,106 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+/**
+ * @brief Length of the packet at the beginning of a message, from the packet's header
+ * @param message Message beginning with a packet
+ * @return Length of the packet in bytes, empty if the message is too short to tell
+ */
+inline std::optional<std::size_t> packet_length(std::span<const uint8_t> message)
+{
+    if (message.size() < sizeof(uint32_t)) {
+        return std::nullopt;
+    }
+    return ((static_cast<std::size_t>(message[2]) << 8) | message[3]) * sizeof(uint32_t);
+}
+
+/**
+ * @brief Message identifier of a command packet
+ * @param message Message beginning with a packet
+ * @return The message identifier, empty if the message is not a command packet
+ */
+inline std::optional<uint32_t> command_message_id(std::span<const uint8_t> message)
+{
+    if (message.size() < sizeof(uint32_t)) {
+        return std::nullopt;
+    }
+    const auto packet_type = message[0] >> 4;
+    if (packet_type != 6 && packet_type != 7) {
+        return std::nullopt;
+    }
+    std::size_t pos = 2 * sizeof(uint32_t); // header and stream_id
+    pos += (message[0] & 0x08) ? 8 : 0; // class_id
+    pos += (message[1] & 0xC0) ? 4 : 0; // integer timestamp
+    pos += (message[1] & 0x30) ? 8 : 0; // fractional timestamp
+    pos += sizeof(uint32_t); // cam
+    if (message.size() < pos + sizeof(uint32_t)) {
+        return std::nullopt;
+    }
+    uint32_t retval = 0;
+    for (auto byte : message.subspan(pos, sizeof(uint32_t))) {
+        retval = (retval << 8) | byte;
+    }
+    return retval;
+}
+
+namespace detail {
+
+using clock = std::chrono::steady_clock;
+static constexpr auto ACK_TIMEOUT = std::chrono::seconds(2);
+
+/**
+ * @brief Receive the acknowledgements that are set, in order, from the messages a function supplies.
+ *        Late answers to other commands are passed over.
+ * @param next Function that returns the next message, waiting for it until the given time
+ */
+template <class NextT, class CtrlT, class ...AckT>
+void receive_acks(NextT&& next, CtrlT& packet, AckT&... acks)
+{
+    const auto recv_ack = [&](auto& ack)
+    {
+        if (!ack.has_value()) { return; }
+        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
+        const auto deadline = clock::now() + ACK_TIMEOUT;
+        while (true) {
+            const auto message = next(deadline);
+            if (auto id = command_message_id(message); id.has_value() && id.value() != packet.message_id()) {
+                continue;
+            }
+            if (auto match_err = ack_t::match(message)) {
+                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+            }
+            ack = ack_t{ message };
+            return;
+        }
+    };
+    (recv_ack(acks), ...);
+}
+
+} // end namespace detail
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
     socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
-    const auto recv_ack = [&socket](auto& ack)
+    auto message = std::array<uint8_t, 65536>{ 0 };
+    const auto next = [&message, &socket](detail::clock::time_point deadline) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        std::array<uint8_t, 65536> message{ 0 };
-        std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
-        });
-        auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
-        if (status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement");
-        }
-        auto reply_length = recv_from_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        while (true) {
+            const auto wait = std::chrono::ceil<std::chrono::milliseconds>(deadline - detail::clock::now()).count();
+            auto readable = pollfd{ socket.native_handle(), POLLIN, 0 };
+            if (wait <= 0 || poll(&readable, 1, static_cast<int>(wait)) == 0) {
+                throw std::runtime_error("timed out waiting for acknowledgement");
+            }
+            typename SockT::endpoint_type endpoint;
+            auto reply_length = socket.receive_from(message.data(), message.size(), endpoint);
+            if (reply_length >= 0) {
+                return { message.data(), static_cast<std::size_t>(reply_length) };
+            }
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
     };
-    (recv_ack(acks), ...);
+    detail::receive_acks(next, packet, acks...);
 }
 
 template <class SockT, class CtrlT, class ...AckT>
@@ -93,39 +171,31 @@ auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
     auto packed_data = packet.data();
     socket.write_some(packed_data.data(), packed_data.size());
     auto message = std::array<uint8_t, 65536>{ 0 };
-    auto reply_length = 0;
-    auto read_idx = std::size_t{};
-    const auto recv_ack = [&message, &socket, &reply_length, &read_idx](auto& ack)
+    // A packet is only taken off the stream when all of it has arrived
+    const auto next = [&message, &socket](detail::clock::time_point deadline) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (reply_length > 0) {
-            auto span = std::span<const uint8_t>{ message.data()+read_idx, static_cast<std::size_t>(reply_length) };
-            if (auto match_err = ack_t::match(span)) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        while (true) {
+            auto reply_length = socket.peek_some(message.data(), message.size());
+            if (reply_length == 0) {
+                throw std::runtime_error("connection closed while waiting for acknowledgement packet");
             }
-            ack = std::move(ack_t{ span });
-            reply_length -= ack->size();
-            read_idx += ack->size();
-            return;
-        }
-        auto read_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.read_some(message.data(), message.size());
-        });
-        using namespace std::chrono_literals;
-        if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
-        }
-        reply_length = read_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+            if (reply_length > 0) {
+                auto length = packet_length({ message.data(), static_cast<std::size_t>(reply_length) });
+                if (length.has_value() && (length.value() == 0 || length.value() > message.size())) {
+                    throw std::runtime_error("incorrect acknowledgement type: not an acknowledgement packet");
+                }
+                if (length.has_value() && static_cast<std::size_t>(reply_length) >= length.value()) {
+                    socket.read_some(message.data(), length.value());
+                    return { message.data(), length.value() };
+                }
+            }
+            if (detail::clock::now() >= deadline) {
+                throw std::runtime_error("timed out waiting for acknowledgement packet");
+            }
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
-        reply_length -= ack->size();
-        read_idx = ack->size();
     };
-    (recv_ack(acks), ...);
+    detail::receive_acks(next, packet, acks...);
 }
 
 } // end namespace vrtgen
-- 
2.43.0


From 6d0168873b4ee4b3a4d897d382022a939624c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 23/36] fix: controller and controllee dispatch

Listeners matched and decoded against the whole buffer rather than the
message received, and the TCP controllee took each read for one packet.  The
query-state acknowledgement was left out when execution was configured but
not requested; the acknowledge class was found by name rather than by
responds_to; user-defined stream identifiers did not compile.  A controller
destroyed while receiving terminated the program, a controllee could call
its handlers after they were destroyed, and validation and execution
acknowledgements were not told apart.
---
 src/vrtgen/backend/cpp/generator.py           |   6 +
 .../cpp/templates/controllee.hpp.jinja2       |  38 ++-
 .../cpp/templates/controllee_base.hpp.jinja2  | 237 +++++++++---------
 .../cpp/templates/controller.hpp.jinja2       |  39 ++-
 .../macros/controller/controller.jinja2       |  31 ++-
 5 files changed, 214 insertions(+), 137 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 40c62a1..54e5482 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -60,6 +60,8 @@ class CppPacket:
         self.namespace = ''
         self.config = packet
         self.supports_multiple_information_codes = False
+        # Name of the acknowledge packet that responds to this control packet
+        self.ack_name = None
 
     @property
     def is_data(self):
@@ -469,6 +471,10 @@ class CppGenerator(Generator):
                 fp.write(template.render(context))
 
         if self.information_class:
+            for packet in self.packets:
+                for ack in self.packets:
+                    if packet.is_control and ack.is_ack and name_to_identifier(ack.config.responds_to) == packet.name:
+                        packet.ack_name = ack.name
             context['packets'] = self.packets
             context['namespace_'] = self.namespace_
             context['information_class'] = self.information_class[1]
diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..0700abf 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -26,10 +26,10 @@ virtual void send_{{ packet.name | to_snake }}({{ packet.name }}& value)
 {% endmacro %}
 
 {%- macro handle_packet_callback(packet) %}
-{% if packet.cam.req_v.enabled %}
-auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX override
+{% if packet.ack_name and packet.cam.req_v.enabled %}
+auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX override
 {
-    auto ack = {{ packet.name }}AckVX{};
+    auto ack = {{ packet.ack_name }}VX{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -37,20 +37,27 @@ auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ pack
 
 {% endif %}
 {% if packet.cam.req_x.enabled %}
-{%   if packet.cam.req_s.enabled %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.name }}AckVX, {{ packet.name }}AckS> override
+{%   if not packet.ack_name %}
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> void override
 {
-    auto ack_x = {{ packet.name }}AckVX{};
-    auto ack_s = {{ packet.name }}AckS{};
+    // AUTO-GENERATED FUNCTION STUB
+    // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
+}
+
+{%   elif packet.cam.req_s.enabled %}
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.ack_name }}VX, {{ packet.ack_name }}S> override
+{
+    auto ack_x = {{ packet.ack_name }}VX{};
+    auto ack_s = {{ packet.ack_name }}S{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return { ack_x, ack_s };
 }
 
 {%   else %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX override
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX override
 {
-    auto ack = {{ packet.name }}AckVX{};
+    auto ack = {{ packet.ack_name }}VX{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -58,10 +65,10 @@ auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packe
 
 {%   endif %}
 {% endif %}
-{% if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name}}AckS override
+{% if packet.ack_name and packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}S override
 {
-    auto ack = {{ packet.name }}AckS{};
+    auto ack = {{ packet.ack_name }}S{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -122,7 +129,12 @@ public:
     /**
      * @brief Destructor
      */
-    ~{{ class_name }}() override = default;
+    ~{{ class_name }}() override
+    {
+{% if ns.has_control %}
+        vrt_stop();
+{% endif %}
+    }
 
 {% for packet in packets if packet.is_control %}
     {{ handle_packet_callback(packet) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..26e7da4 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -141,10 +141,40 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro send_ack(packet, ack, cmd_socket) %}
+{% if packet.stream_id.user_defined %}
+auto stream_id = std::array<uint8_t, sizeof(uint32_t)>{};
+packet.stream_id().pack_into(stream_id.data());
+{{ ack }}.stream_id().unpack_from(stream_id.data());
+{% else %}
+{{ ack }}.stream_id(packet.stream_id());
+{% endif %}
+{{ ack }}.message_id(packet.message_id());
+{% if packet.controllee_id.enabled %}
+{{ ack }}.controllee_id(packet.controllee_id());
+{% endif %}
+{% if packet.controller_id.enabled %}
+{{ ack }}.controller_id(packet.controller_id());
+{% endif %}
+auto packed_data = {{ ack }}.data();
+{% if cmd_socket == 'nats' %}
+if (!reply.empty()) {
+    m_client.publish(reply, packed_data);
+}
+{% elif cmd_socket == 'udp' %}
+m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
+{% else %}
+m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
 #include <array>
+#include <vector>
+#include <span>
+#include <stdexcept>
 #include <thread>
 #include <atomic>
 #include <map>
@@ -238,10 +268,7 @@ public:
     virtual ~{{ class_name }}()
     {
 {% if ns.has_control %}
-        m_listening = false;
-        if (m_recv_thread.joinable()) {
-            m_recv_thread.join();
-        }
+        vrt_stop();
 {% endif %}
     }
 {% if ns.has_datactxt %}
@@ -331,25 +358,40 @@ public:
     }
 
 {%   endif %}
-{%   if packet.cam.req_v.enabled %}
-    virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
+{%   if packet.ack_name and packet.cam.req_v.enabled %}
+    virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX = 0;
 {%   endif %}
 {%   if packet.cam.req_x.enabled %}
-{%     if packet.cam.req_s.enabled %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.name }}AckVX, {{ packet.name }}AckS> = 0;
+{%     if not packet.ack_name %}
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> void = 0;
+{%     elif packet.cam.req_s.enabled %}
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.ack_name }}VX, {{ packet.ack_name }}S> = 0;
 {%     else %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX = 0;
 {%     endif %}
-{%   endif %}
-{%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckS = 0;
+{%   elif packet.ack_name and packet.cam.req_s.enabled %}
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}S = 0;
 {%   endif %}
 {% if loop.last %}
 
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% if ns.has_control %}
+    /**
+     * @brief Stop the listener thread. A derived class calls this in its destructor, while its
+     *        handlers are still there to be called.
+     */
+    auto vrt_stop() -> void
+    {
+        m_listening = false;
+        if (m_recv_thread.joinable()) {
+            m_recv_thread.join();
+        }
+    }
+
+{% endif %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
@@ -370,142 +412,113 @@ private:
     std::thread m_recv_thread;
     std::atomic_bool m_listening{ false };
 {% endif %}
-{% for packet in packets if packet.is_control %}
-{%   if loop.first %}
+{% if ns.has_control %}
 
     auto m_listener_func() -> void
     {
+{%   if cmd_socket == 'tcp' %}
+        auto stream = std::vector<uint8_t>{};
+{%   endif %}
         while (m_listening) {
-{%     if cmd_socket == 'nats' %}
+{%   if cmd_socket == 'nats' %}
             using namespace std::chrono_literals;
             auto message = m_client.next_msg(1s);
             if (message == nullptr) {
                 continue;
             }
-{%     else %}
+            m_handle_message(message->data(), message->reply_subject());
+{%   else %}
             auto message = message_buffer{};
-{%       if cmd_socket == 'tcp' %}
+{%     if cmd_socket == 'tcp' %}
             auto recv_length = m_cmd_socket.read_some(message.data(), message.size());
-{%       elif cmd_socket == 'udp' %}
+            if (recv_length <= 0) {
+                continue;
+            }
+            // A read may end anywhere: take the packets that are complete, keep the rest
+            stream.insert(stream.end(), message.begin(), message.begin() + recv_length);
+            while (auto length = vrtgen::packet_length(stream)) {
+                if (*length == 0) {
+                    // Not a packet, and nothing tells where the next one starts
+                    stream.clear();
+                    break;
+                }
+                if (stream.size() < *length) {
+                    break;
+                }
+                m_handle_message({ stream.data(), *length });
+                stream.erase(stream.begin(), stream.begin() + *length);
+            }
+{%     elif cmd_socket == 'udp' %}
             cmd_endpoint_type endpoint;
             auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
-{%       endif %}
             if (recv_length <= 0) {
                 continue;
             }
+            m_handle_message({ message.data(), static_cast<std::size_t>(recv_length) }, endpoint);
 {%     endif %}
-
 {%   endif %}
+        }
+    }
+
 {%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
+    auto m_handle_message(std::span<const uint8_t> message, const std::string& reply) -> void
+{%   elif cmd_socket == 'udp' %}
+    auto m_handle_message(std::span<const uint8_t> message, const cmd_endpoint_type& endpoint) -> void
 {%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
+    auto m_handle_message(std::span<const uint8_t> message) -> void
 {%   endif %}
-{%   if packet.cam.req_v.enabled %}
+    {
+{%   for packet in packets if packet.is_control %}
+        if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
+            auto received = std::optional<{{ packet.name }}>{};
+            try {
+                received.emplace(message);
+            } catch (const std::exception&) {
+                // Not a complete {{ packet.name }}
+            }
+            if (received.has_value()) {
+                [[maybe_unused]] auto& packet = received.value();
+{%     if packet.ack_name and packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
-                    ack_v.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_v.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_v.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_v.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    {{ send_ack(packet, 'ack_v', cmd_socket) | indent(20) | trim }}
                 }
-{%   endif %}
-{%   if packet.cam.req_x.enabled %}
+{%     endif %}
+{%     if packet.cam.req_x.enabled %}
+{%       if not packet.ack_name %}
                 if (packet.cam().req_x()) {
-{%     if packet.cam.req_s.enabled %}
+                    this->execute_{{ packet.name | to_snake }}(packet);
+                }
+{%       elif packet.cam.req_s.enabled %}
+                if (packet.cam().req_x() || packet.cam().req_s()) {
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
-{%     else %}
-                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
-{%     endif %}
-                    ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
-                    ack_x.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_x.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_x.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_x.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
+                    if (packet.cam().req_x()) {
+                        ack_x.ack_x(true);
+                        {{ send_ack(packet, 'ack_x', cmd_socket) | indent(24) | trim }}
                     }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
-{%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
-                        ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                        ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                        ack_s.controller_id(packet.controller_id());
-{%     endif %}
-                        auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                        if (auto reply = message->reply_subject(); !reply.empty()) {
-                            m_client.publish(reply, packed_data);
-                        }
-{%     elif cmd_socket == 'udp' %}
-                        m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                        m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                        {{ send_ack(packet, 'ack_s', cmd_socket) | indent(24) | trim }}
                     }
-{%     endif %}
                 }
-{%   endif %}
-{%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
+{%       else %}
+                if (packet.cam().req_x()) {
+                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
+                    ack_x.ack_x(true);
+                    {{ send_ack(packet, 'ack_x', cmd_socket) | indent(20) | trim }}
+                }
+{%       endif %}
+{%     elif packet.ack_name and packet.cam.req_s.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
-                    ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_s.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    {{ send_ack(packet, 'ack_s', cmd_socket) | indent(20) | trim }}
                 }
-{%   endif %}
+{%     endif %}
             }
-{%   if loop.last %}
         }
+{%   endfor %}
     }
-{%   endif %}
-{% endfor %}
+{% endif %}
 
 }; // end class {{ class_name }}
 {% if namespace_ %}
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..a5ee5c6 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -19,6 +19,14 @@
 {%- import "macros/controller/controller.jinja2" as controller %}
 #pragma once 
 
+#include <atomic>
+#include <functional>
+#include <mutex>
+#include <optional>
+#include <span>
+#include <stdexcept>
+#include <thread>
+#include <tuple>
 {% if cmd_socket == 'nats' %}
 #include <vrtgen/nats.hpp>
 {% else %}
@@ -93,6 +101,16 @@ public:
     {{ controller_name }}() = default;
 {% endif %}
 
+{% if ns.has_datactxt %}
+    /**
+     * @brief Destructor
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+
+{% endif %}
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
     {{ controller.define_functions(packets, controller_name, type_helper, cmd_socket) | indent(4) | trim }}
@@ -120,12 +138,25 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
-                if (m_{{ packet.name | to_snake }}_listener) {
-                    m_{{ packet.name | to_snake }}_listener(packet);
+            if (!{{ packet.name }}::match(received)) {
+                auto packet = std::optional<{{ packet.name }}>{};
+                try {
+                    packet.emplace(received);
+                } catch (const std::exception&) {
+                    // Not a complete {{ packet.name }}
+                }
+                if (packet.has_value()) {
+                    auto listener = std::function<void({{ packet.name }}&)>{};
+                    {
+                        const auto lock = std::lock_guard<std::mutex>{ m_listener_mutex };
+                        listener = m_{{ packet.name | to_snake }}_listener;
+                    }
+                    if (listener) {
+                        listener(packet.value());
+                    }
                 }
             }
 {%   if loop.last %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index b28b60d..6744159 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -50,7 +50,7 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 {% endif %}
 {% set req_list = [] %}
 {% set ack_list = [] %}
-{% if packet.cam.enabled %}
+{% if packet.cam.enabled and packet.ack_name %}
 {%   if packet.cam.req_v.enabled %}
 {%     do req_list.append('req_v') %}
 {%     do ack_list.append('ack_v') %}
@@ -70,11 +70,11 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
     auto acks = std::tuple<
 {%   endif %}
 {%   if ack_t == 'ack_v'%}
-        std::optional<{{ packet.name }}AckVX>{{ ',' if not loop.last }}
+        std::optional<{{ packet.ack_name }}VX>{{ ',' if not loop.last }}
 {%   elif ack_t == 'ack_x' %}
-        std::optional<{{ packet.name }}AckVX>{{ ',' if not loop.last }}
+        std::optional<{{ packet.ack_name }}VX>{{ ',' if not loop.last }}
 {%   elif ack_t == 'ack_s' %}
-        std::optional<{{ packet.name }}AckS>
+        std::optional<{{ packet.ack_name }}S>
 {%   endif %}
 {%   if loop.last %}
     >{};
@@ -93,11 +93,11 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 {% for req_t in req_list %}
     if (packet.cam().{{ req_t }}()) {
 {%   if req_t == 'req_v' %}
-        ack_v = {{ packet.name }}AckVX{};
+        ack_v = {{ packet.ack_name }}VX{};
 {%   elif req_t == 'req_x' %}
-        ack_x = {{ packet.name }}AckVX{};
+        ack_x = {{ packet.ack_name }}VX{};
 {%   elif req_t == 'req_s' %}
-        ack_s = {{ packet.name }}AckS{};
+        ack_s = {{ packet.ack_name }}S{};
 {%   endif %}
     }
 {% endfor %}
@@ -106,6 +106,16 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 {% else %}
     vrtgen::send_packet(m_cmd_socket, packet{% if ns.ack_tup_str != ''%} , {{ ns.ack_tup_str }} {% endif %});
 {% endif %}
+{% if 'ack_v' in ack_list %}
+    if (ack_v.has_value() && !ack_v->cam().ack_v()) {
+        throw std::runtime_error("incorrect acknowledgement type: not a validation acknowledgement");
+    }
+{% endif %}
+{% if 'ack_x' in ack_list %}
+    if (ack_x.has_value() && !ack_x->cam().ack_x()) {
+        throw std::runtime_error("incorrect acknowledgement type: not an execution acknowledgement");
+    }
+{% endif %}
 {% if ns.ack_tup_str != '' %}
     return acks;
 {% endif %}    
@@ -119,6 +129,7 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
  */
 void register_{{ packet.name | to_snake }}_listener(const std::function<void({{ packet.name }}&)>&& func)
 {
+    const auto lock = std::lock_guard<std::mutex>{ m_listener_mutex };
     m_{{ packet.name | to_snake }}_listener = std::move(func);
 }
 {% endmacro %}
@@ -162,6 +173,9 @@ void send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 void enable_receive()
 {
     if (!m_receiving) {
+        if (m_recv_thread.joinable()) {
+            m_recv_thread.join();
+        }
         m_receiving = true;
         m_recv_thread = std::thread(&{{ class_name }}::m_receiver_func, this);
     }
@@ -173,7 +187,7 @@ void enable_receive()
 void disable_receive()
 {
     m_receiving = false;
-    if (m_recv_thread.joinable()) {
+    if (m_recv_thread.joinable() && m_recv_thread.get_id() != std::this_thread::get_id()) {
         m_recv_thread.join();
     }
 }
@@ -205,6 +219,7 @@ data_ctxt_socket_type m_data_ctxt_recv_socket;
 data_ctxt_socket_type m_data_ctxt_send_socket;
 std::thread m_recv_thread;
 std::atomic_bool m_receiving{ false };
+std::mutex m_listener_mutex;
 {%   endif %}
 std::function<void({{ packet.name }}&)> m_{{ packet.name | to_snake }}_listener;
 {% endfor %}
-- 
2.43.0


From 047e3823e8752b7bc17763cb242421a9a93e0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:48 +0000
Subject: [PATCH 24/36] fix: NATS client wakes, keeps apart and ends its
 subscriptions

Inbox messages were queued under one mutex and awaited under another, wake-ups
at shutdown could be lost, reply subscriptions were never ended, callbacks could
outlive the client, a second subscription left the first one delivering, replies
to an earlier inbox were taken for replies to the new one, empty messages were
dropped, the server URL came with its buffer's padding, and a copied message
freed its contents twice.
---
 include/vrtgen/nats/client.hpp  | 179 +++++++++++++++++++-------------
 include/vrtgen/nats/message.hpp |   3 +
 2 files changed, 112 insertions(+), 70 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..04d1f24 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -60,14 +60,17 @@ public:
      */
     ~client()
     {
-        m_done = true;
-        stop();
-        if (m_sub != nullptr) {
-            natsSubscription_Destroy(m_sub);
-        }
+        end_subscription(m_reply_sub);
+        unsubscribe();
         if (m_connection != nullptr) {
             natsConnection_Destroy(m_connection);
         }
+        // Send away those still waiting for a message
+        auto lock = std::unique_lock<std::mutex>{ m_msg_mtx };
+        m_done = true;
+        m_msg_cv.notify_all();
+        m_inbox_msg_cv.notify_all();
+        m_idle_cv.wait(lock, [this]{ return m_waiting == 0; });
     }
 
     /**
@@ -85,6 +88,12 @@ public:
      */
     auto connect(const std::string& url) -> natsStatus
     {
+        if (m_connection != nullptr) {
+            end_subscription(m_reply_sub);
+            unsubscribe();
+            natsConnection_Destroy(m_connection);
+            m_connection = nullptr;
+        }
         return natsConnection_ConnectTo(&m_connection, url.c_str());
     }
 
@@ -98,7 +107,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
@@ -127,6 +136,7 @@ public:
         if (subject.empty()) {
             return NATS_INVALID_SUBJECT;
         }
+        unsubscribe();
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -161,6 +171,7 @@ public:
         if (queue_group.empty()) {
             return NATS_INVALID_QUEUE_NAME;
         }
+        unsubscribe();
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -206,19 +217,7 @@ public:
      */
     auto next_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
-        using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
-        if (timeout == BLOCKING) {
-            m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
-        } else {
-            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running); });
-        }
-        if (!m_msg_queue.empty()) {
-            auto retval = std::move(m_msg_queue.front());
-            m_msg_queue.pop();
-            return retval;
-        }
-        return { nullptr };
+        return take(m_msg_queue, m_msg_cv, timeout, [this]{ return m_is_sync && !m_running; });
     }
 
     /**
@@ -241,15 +240,21 @@ public:
      */
     auto new_inbox() -> natsStatus
     {
-        if (m_reply_sub != nullptr) {
-            natsSubscription_Destroy(m_reply_sub);
+        // Replies sent to the previous inbox are not replies to the new one
+        end_subscription(m_reply_sub);
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_msg_mtx };
+            m_inbox_msg_queue = {};
         }
 
         // Generate a unique subject
         auto inbox_str = std::string{ "INBOX_" };
-        for (auto i=0u; i<INBOX_LEN; ++i) {
-            auto random_index = m_random(m_urbg);
-            inbox_str += DIGITS.at(random_index);
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_random_mtx };
+            for (auto i=0u; i<INBOX_LEN; ++i) {
+                auto random_index = m_random(m_urbg);
+                inbox_str += DIGITS.at(random_index);
+            }
         }
 
         return natsConnection_Subscribe(
@@ -267,19 +272,7 @@ public:
      */
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
-        using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
-        if (timeout == BLOCKING) {
-            m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
-        } else {
-            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running); });
-        }
-        if (!m_inbox_msg_queue.empty()) {
-            auto retval = std::move(m_inbox_msg_queue.front());
-            m_inbox_msg_queue.pop();
-            return retval;
-        }
-        return { nullptr };
+        return take(m_inbox_msg_queue, m_inbox_msg_cv, timeout, []{ return false; });
     }
 
 private:
@@ -289,15 +282,17 @@ private:
     // Sync
     bool m_is_sync{ false };
     std::atomic_bool m_running{ false };
-    bool m_done{ false };
     std::thread m_thread;
+    // Guards everything below
+    std::mutex m_msg_mtx;
+    bool m_done{ false };
+    std::size_t m_waiting{ 0 };
+    std::condition_variable m_idle_cv;
     // Subscription
     std::queue<message_ptr> m_msg_queue;
-    std::mutex m_msg_mtx;
     std::condition_variable m_msg_cv;
     // Reply subscription
     std::queue<message_ptr> m_inbox_msg_queue;
-    std::mutex m_inbox_msg_mtx;
     std::condition_variable m_inbox_msg_cv;
     const std::size_t INBOX_LEN{ 32 };
     inline static const std::string DIGITS{
@@ -311,7 +306,72 @@ private:
         )
     };
     inline static std::uniform_int_distribution m_random{ std::size_t{ 0 }, DIGITS.size()-1 };
-    
+    inline static std::mutex m_random_mtx;
+
+    // Take the next message from a queue, waiting for one until the timeout
+    template <class StopT>
+    auto take(std::queue<message_ptr>& queue, std::condition_variable& cv, std::chrono::milliseconds timeout, StopT&& stopped) -> message_ptr
+    {
+        auto lock = std::unique_lock<std::mutex>{ m_msg_mtx };
+        const auto ready = [&]{ return !queue.empty() || stopped() || m_done; };
+        ++m_waiting;
+        if (timeout == BLOCKING) {
+            cv.wait(lock, ready);
+        } else {
+            cv.wait_for(lock, timeout, ready);
+        }
+        if (--m_waiting == 0 && m_done) {
+            m_idle_cv.notify_all();
+        }
+        if (!queue.empty()) {
+            auto retval = std::move(queue.front());
+            queue.pop();
+            return retval;
+        }
+        return { nullptr };
+    }
+
+    // Add a message to a queue
+    auto put(std::queue<message_ptr>& queue, std::condition_variable& cv, natsMsg* msg) -> void
+    {
+        auto data = std::make_unique<message>(msg);
+        if (natsMsg_IsNoResponders(msg)) {
+            return;
+        }
+        const auto lock = std::lock_guard<std::mutex>{ m_msg_mtx };
+        queue.push(std::move(data));
+        cv.notify_one();
+    }
+
+    // End a subscription. Its callback is not running any more when this returns.
+    auto end_subscription(natsSubscription*& sub) -> void
+    {
+        if (sub == nullptr) {
+            return;
+        }
+        struct completion { client* self; bool done; } complete{ this, false };
+        const auto on_complete = [](void* ctx)
+        {
+            auto self = static_cast<completion*>(ctx)->self;
+            const auto lock = std::lock_guard<std::mutex>{ self->m_msg_mtx };
+            static_cast<completion*>(ctx)->done = true;
+            self->m_idle_cv.notify_all();
+        };
+        const auto notified = natsSubscription_SetOnCompleteCB(sub, on_complete, &complete) == NATS_OK;
+        natsSubscription_Destroy(sub);
+        sub = nullptr;
+        if (notified) {
+            auto lock = std::unique_lock<std::mutex>{ m_msg_mtx };
+            m_idle_cv.wait(lock, [&]{ return complete.done; });
+        }
+    }
+
+    auto unsubscribe() -> void
+    {
+        stop();
+        end_subscription(m_sub);
+    }
+
     auto start() -> void
     {
         if (!m_running) {
@@ -322,8 +382,11 @@ private:
 
     auto stop() -> void
     {
-        m_running = false;
-        m_msg_cv.notify_all();
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_msg_mtx };
+            m_running = false;
+            m_msg_cv.notify_all();
+        }
         if (m_thread.joinable()) {
             m_thread.join();
         }
@@ -336,24 +399,12 @@ private:
                 natsMsg* msg{ nullptr };
                 auto res = natsSubscription_NextMsg(&msg, m_sub, 1000);
                 if (res == NATS_OK && msg != nullptr) {
-                    add_msg(std::make_unique<message>(msg));
+                    put(m_msg_queue, m_msg_cv, msg);
                 }
             }
         }
     }
 
-    auto add_msg(message_ptr&& data) -> void
-    {
-        if (data && data->data().empty()) {
-            return;
-        }
-        {
-            const auto lock = std::lock_guard<std::mutex>{ m_msg_mtx };
-            m_msg_queue.push(std::move(data));
-        }
-        m_msg_cv.notify_one();
-    }
-
     static
     auto on_msg([[maybe_unused]] natsConnection* conn,
                 [[maybe_unused]] natsSubscription* sub,
@@ -362,23 +413,11 @@ private:
     {
         if (auto self = static_cast<client*>(ctx); self != nullptr) {
             if (msg != nullptr) {
-                self->add_msg(std::make_unique<message>(msg));
+                self->put(self->m_msg_queue, self->m_msg_cv, msg);
             }
         }
     }
 
-    auto add_inbox_msg(message_ptr&& data) -> void
-    {
-        if (data && data->data().empty()) {
-            return;
-        }
-        {
-            const auto lock = std::lock_guard<std::mutex>{ m_inbox_msg_mtx };
-            m_inbox_msg_queue.push(std::move(data));
-        }
-        m_inbox_msg_cv.notify_one();
-    }
-
     static
     auto on_reply_msg([[maybe_unused]] natsConnection* conn,
                       [[maybe_unused]] natsSubscription* sub,
@@ -387,7 +426,7 @@ private:
     {
         if (auto self = static_cast<client*>(ctx); self != nullptr) {
             if (msg != nullptr) {
-                self->add_inbox_msg(std::make_unique<message>(msg));
+                self->put(self->m_inbox_msg_queue, self->m_inbox_msg_cv, msg);
             }
         }
     }
diff --git a/include/vrtgen/nats/message.hpp b/include/vrtgen/nats/message.hpp
index c780670..a1ba74c 100644
--- a/include/vrtgen/nats/message.hpp
+++ b/include/vrtgen/nats/message.hpp
@@ -61,6 +61,9 @@ public:
         }
     }
 
+    message(const message&) = delete;
+    auto operator=(const message&) -> message& = delete;
+
     /**
      * @brief Get a pointer to the underlying NATS message
      * @return Pointer to the underlying natsMsg
-- 
2.43.0


From 3c5b11b61312fbd27758058b299848d502c4069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:36 +0000
Subject: [PATCH 25/36] fix: sections of a packet definition are of their own
 type, and not shared through YAML aliases

---
 src/vrtgen/parser/loader.py        |  4 ++++
 src/vrtgen/parser/model/base.py    | 17 ++++++++++++++++-
 src/vrtgen/parser/model/command.py |  2 +-
 src/vrtgen/parser/model/context.py |  2 +-
 src/vrtgen/parser/model/data.py    |  2 +-
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index a4eb07b..a2ca7ea 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -15,6 +15,8 @@
 # You should have received a copy of the GNU Lesser General Public License
 # along with this program.  If not, see http://www.gnu.org/licenses/. 
 
+import copy
+
 import yaml
 from dataclasses import make_dataclass, field
 
@@ -109,6 +111,8 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
         for key,val in loader.construct_mapping(node, deep=True).items():
             if type(val) != packing.IntegerType:
                 raise TypeError('stream_id constituents must be of type !IntegerType')
+            # YAML aliases may share one type among several constituents
+            val = copy.deepcopy(val)
             val.name = key
             pos += val.bits
             if pos > 32:
diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 0db27fe..5782f29 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -1,3 +1,4 @@
+import copy
 from dataclasses import dataclass, field, asdict
 
 from vrtgen.parser.model.types import *
@@ -98,9 +99,23 @@ class Packet:
             if not field in [f.name for f in self.fields]:
                 raise ValueError('invalid field provided: ' + field)
 
+    def _set_section(self, key, val):
+        """
+        Takes over a section of the packet, which has to be of that section's
+        own type.
+        """
+        section = self.__dict__.get(key)
+        is_section = section is not None and not key in ('header', 'message_id')
+        # A user-defined stream ID has a type of its own
+        is_stream_id = key == 'stream_id' and isinstance(val, PackedStruct) and type(val).__name__ == 'StreamIdentifier'
+        if not is_section or not (isinstance(val, type(section)) or is_stream_id):
+            raise TypeError('invalid value provided for field {}: {}'.format(key, val))
+        # YAML aliases may share one section among several packets
+        self.__dict__[key] = copy.deepcopy(val)
+
     def _parse_mapping(self, mapping):
         for key,value in mapping.items():
-            self.__dict__[key] = value
+            self._set_section(key, value)
 
     def _update_header(self):
         if self.class_id.enabled:
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index d416bc7..5cf931c 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -174,7 +174,7 @@ class CommandPacket(Packet):
                 elif key == 'controller_id':
                     self.controller_id._parse_mapping(val)
                 else:
-                    self.__dict__[key] = val
+                    self._set_section(key, val)
         except:
             raise
 
diff --git a/src/vrtgen/parser/model/context.py b/src/vrtgen/parser/model/context.py
index 6a8ff3d..d78294b 100644
--- a/src/vrtgen/parser/model/context.py
+++ b/src/vrtgen/parser/model/context.py
@@ -50,7 +50,7 @@ class ContextPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_section(key, val)
 
     def _update_header(self):
         if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 59030c1..198a034 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -136,4 +136,4 @@ class DataPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_section(key, val)
-- 
2.43.0


From e12871a45733b596e5bc4f946a7cdf8209a39804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:38 +0000
Subject: [PATCH 26/36] fix: indicator words and other sections of a definition
 accept only their own fields

---
 src/vrtgen/parser/model/base.py    | 2 +-
 src/vrtgen/parser/model/cif0.py    | 2 ++
 src/vrtgen/parser/model/cif1.py    | 8 ++++++--
 src/vrtgen/parser/model/cif7.py    | 2 +-
 src/vrtgen/parser/model/command.py | 2 +-
 src/vrtgen/parser/model/data.py    | 2 +-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 5782f29..7120d42 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -59,7 +59,7 @@ class CIF(PackedStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + field)
 
     def _parse_mapping(self, mapping):
diff --git a/src/vrtgen/parser/model/cif0.py b/src/vrtgen/parser/model/cif0.py
index 90651df..9a194d7 100644
--- a/src/vrtgen/parser/model/cif0.py
+++ b/src/vrtgen/parser/model/cif0.py
@@ -238,6 +238,8 @@ class CIF0(CIF):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
                 else:
+                    if not isinstance(val, ReferenceLevel):
+                        raise TypeError('invalid value provided for field {}: {}'.format(key, val))
                     self.__dict__[key].enabled = val.enabled
                     self.__dict__[key].required = val.required
                     self.__dict__[key].type_ = val
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 5922ee4..efc7265 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -278,7 +278,7 @@ class IndexList(TemplateArrayStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
+            if field != 'entry_size':
                 raise ValueError('invalid field provided: ' + field)
 
     def _parse_mapping(self, mapping):
@@ -499,7 +499,7 @@ class CIF1(CIF):
 
     def _validate(self, mapping):
         for key, val in mapping.items():
-            if not key in [f.name for f in self.fields]:
+            if not key in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + key)
             elif key == 'sector_step_scan' and not isinstance(val, SectorStepScan):
                 raise ValueError('Sector Step Scan not of the correct type')
@@ -518,6 +518,8 @@ class CIF1(CIF):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
                 else:
+                    if not isinstance(val, DiscreteIO32 if key == 'discrete_io_32' else DiscreteIO64):
+                        raise TypeError('invalid value provided for field {}: {}'.format(key, val))
                     self.__dict__[key].enabled = val.enabled
                     self.__dict__[key].required = val.required
                     self.__dict__[key].type_ = val
@@ -527,6 +529,8 @@ class CIF1(CIF):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
                 else:
+                    if not isinstance(val, BufferSize):
+                        raise TypeError('invalid value provided for field {}: {}'.format(key, val))
                     self.__dict__[key].enabled = val.enabled
                     self.__dict__[key].required = val.required
                     self.__dict__[key].type_ = val
diff --git a/src/vrtgen/parser/model/cif7.py b/src/vrtgen/parser/model/cif7.py
index 8a31364..c0f346c 100644
--- a/src/vrtgen/parser/model/cif7.py
+++ b/src/vrtgen/parser/model/cif7.py
@@ -101,7 +101,7 @@ class CIF7(CIF):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.attributes.fields]:
+            if not field in [f.name for f in self.attributes.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + field)
 
     @property
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 5cf931c..f0c9d86 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -58,7 +58,7 @@ class ControlAcknowledgeMode(PackedStruct):
     def _validate(self, mapping):
         for field in mapping:
             error_msg = 'invalid cam field provided: ' + field  
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError(error_msg)
             else:
                 for cls_field in self.fields:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 198a034..55d15b1 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -41,7 +41,7 @@ class Trailer(StateEventIndicators):
         for field in mapping:
             if 'user_defined' in field:
                 continue
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + field)
 
     @property
-- 
2.43.0


From b1a6c9e50dee4ef2b3d3bf3b1ac976880c1f2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 27/36] fix: codes, stream IDs, integer widths and OUIs of a
 definition are checked against what their words hold

---
 src/vrtgen/parser/loader.py              |  5 ++---
 src/vrtgen/parser/model/prologue.py      |  4 ++--
 src/vrtgen/parser/model/types/packing.py |  6 +++++-
 src/vrtgen/parser/value.py               | 15 +++++++++++++--
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index a2ca7ea..00c1fa0 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -20,6 +20,7 @@ import copy
 import yaml
 from dataclasses import make_dataclass, field
 
+from vrtgen.parser import value
 from vrtgen.parser.model import data, context, command
 from vrtgen.parser.model.types import packing
 from vrtgen.parser.model import prologue, cif0, cif1, cif2, cif7
@@ -102,9 +103,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
                     node_scalar_value = int(node_scalar_value)
             except:
                 raise
-            if not isinstance(node_scalar_value, int):
-                raise ValueError('stream_id value must be an int, not',type(node_scalar_value))
-            stream_id.value = node_scalar_value
+            stream_id.value = value.parse_unsigned(node_scalar_value, 32)
     else:
         pos = 0
         fields = [('name',str,'stream_id')]
diff --git a/src/vrtgen/parser/model/prologue.py b/src/vrtgen/parser/model/prologue.py
index d4c570b..9ed5f86 100644
--- a/src/vrtgen/parser/model/prologue.py
+++ b/src/vrtgen/parser/model/prologue.py
@@ -25,9 +25,9 @@ class ClassIdentifier(PackedStruct):
                 if key == 'oui':
                     self.oui.value = value.parse_oui(val)
                 elif key == 'packet_code':
-                    self.packet_code.value = val
+                    self.packet_code.value = value.parse_unsigned(val, 16)
                 elif key == 'information_code':
-                    self.information_code.value = val
+                    self.information_code.value = value.parse_unsigned(val, 16)
                 else:
                     raise KeyError(val)
             except:
diff --git a/src/vrtgen/parser/model/types/packing.py b/src/vrtgen/parser/model/types/packing.py
index 54933d5..996e73d 100644
--- a/src/vrtgen/parser/model/types/packing.py
+++ b/src/vrtgen/parser/model/types/packing.py
@@ -97,9 +97,13 @@ class IntegerType(Field):
     def parse_mapping(self, **mapping):
         for key,val in mapping.items():
             if key == 'bits':
+                if isinstance(val, (bool, float)) or not 1 <= int(val) <= 32:
+                    raise ValueError('invalid number of bits: {}'.format(val))
                 self.bits = int(val)
-            if key == 'value':
+            elif key == 'value':
                 self.value = val
+            else:
+                raise ValueError('invalid integer type option provided: {}'.format(key))
 
 @dataclass
 class SignedIntegerType(IntegerType):
diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..4306de2 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -88,7 +88,18 @@ def parse_enable(value):
     except KeyError:
         raise ValueError('invalid enable value: ' + value)
 
-_HEX_DIGIT = r'[0-9a-zA-Z]'
+def parse_unsigned(value, bits):
+    """
+    Checks that a value is a whole number that can be represented in the given
+    number of bits.
+    """
+    if isinstance(value, bool) or not isinstance(value, int):
+        raise TypeError('value must be an integer: {}'.format(value))
+    if not 0 <= value < (1 << bits):
+        raise ValueError('value cannot be represented in {} bits: {}'.format(bits, value))
+    return value
+
+_HEX_DIGIT = r'[0-9a-fA-F]'
 _OUI_RE = re.compile(r'({0})-({0})-({0})$'.format(_HEX_DIGIT*2))
 def parse_oui(value):
     """
@@ -97,7 +108,7 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
     match = _OUI_RE.match(str(value))
     if not match:
-- 
2.43.0


From 003127bcf8fd2e990de60cd24513427ca0f064ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:55 +0000
Subject: [PATCH 28/36] fix: user-defined indicators and discrete I/O members
 of a definition are checked and kept within their bits

---
 src/vrtgen/parser/model/cif1.py |  4 ++--
 src/vrtgen/parser/model/data.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index efc7265..031864d 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -321,9 +321,9 @@ class DiscreteIO(PackedStruct):
                 continue
             elif val == 'enable_indicator':
                 continue
-            elif isinstance(val, int):
+            elif isinstance(val, int) and not isinstance(val, bool) and val > 0:
                 continue
-            elif isinstance(val, list):
+            elif isinstance(val, list) and val and all(isinstance(item, str) for item in val):
                 continue
             else:
                 raise ValueError('invalid discrete_io type specified: ', val)
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 55d15b1..78d7634 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -58,7 +58,6 @@ class Trailer(StateEventIndicators):
 
     def _parse_mapping(self, mapping):
         packed_tag_pos = 8
-        greater_than_two = False
         try:
             for key,val in mapping.items():
                 if not key in [f.name for f in self.fields]:
@@ -67,7 +66,7 @@ class Trailer(StateEventIndicators):
                         self.subfields.append(EnableIndicatorType(key, bits=1, user_defined=True, enabled=True, required=True, packed_tag=PackedTag(packed_tag_pos,1,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', user_defined=True, bits=1, enabled=True, required=True, is_enable=True, packed_tag=PackedTag(packed_tag_pos+12,1,0,0)))
                         packed_tag_pos += 1
-                    elif isinstance(val, list):
+                    elif isinstance(val, list) and len(val) > 1 and all(isinstance(item, str) for item in val):
                         bits = math.floor(math.log(len(val)-1) / math.log(2)) + 1
                         if bits > 4:
                             raise ValueError("Enum can only be 4 bits maximum")
@@ -78,21 +77,22 @@ class Trailer(StateEventIndicators):
                             member_val += 1
                         user_defined_enum = BinaryEnum(key, enum_members)
                         user_defined_enum.bits = bits
-                        if bits > 2:
-                            greater_than_two = True
                         pos = packed_tag_pos + bits - 1
                         self.subfields.append(EnumType(key, enabled=True, required=True, user_defined=True, type_=user_defined_enum, packed_tag=PackedTag(pos,bits,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', bits=bits, enabled=True, required=True, user_defined=True, is_enable=True, is_enum=True, packed_tag=PackedTag(pos+12,bits,0,0)))
                         packed_tag_pos += bits
+                    else:
+                        raise ValueError('invalid user-defined trailer type specified for {}: {}'.format(key, val))
                 else:
                     mode = value.parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
 
-            if len(self.subfields) > 4 and self.sample_frame.enabled:
-                raise ValueError('Cannot have user_defined_higher and sample_frame')
-            if greater_than_two and self.sample_frame.enabled:
+            # The user-defined bits start at 8, the sample frame takes 10 and 11
+            if packed_tag_pos > 10 and self.sample_frame.enabled:
                 raise ValueError('Cannot have user_defined_higher and sample_frame')
+            if packed_tag_pos > 12:
+                raise ValueError('User-defined indicators can only be 4 bits maximum')
         except:
             raise
 
-- 
2.43.0


From a39047d021ff95cdd20eddb29cf6995746dacb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:00 +0000
Subject: [PATCH 29/36] fix: definitions refer to each other wherever they are
 in the file, and anything else at its top level is rejected

---
 src/vrtgen/main.py            |  2 +-
 src/vrtgen/parser/__init__.py | 59 ++++++++++++++++++++---------------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 9ff3fa3..90a5ded 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -122,7 +122,7 @@ def main():
         logging.debug('Parsing %s', filename)
         generator.start_file(filename)
         for name,value in parser.parse_file(filename, generator.get_loader()):
-            if name == 'files':
+            if name == 'files' and isinstance(value, list):
                 generator.yamls = value
             else:
                 try:
diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 2aa83d4..a462c77 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -15,9 +15,11 @@
 # You should have received a copy of the GNU Lesser General Public License
 # along with this program.  If not, see http://www.gnu.org/licenses/.
 
+import copy
 import yaml, logging
 
-from vrtgen.parser.model.command import AcknowledgePacket
+from vrtgen.parser.model.base import Packet
+from vrtgen.parser.model.command import AcknowledgePacket, ControlPacket
 from vrtgen.parser.model.information import InformationClass
 
 __all__ = (
@@ -37,13 +39,10 @@ def parse_stream(stream, loader):
     Parses VITA 49 class definitions from a file-like object.
     """
     parsed = yaml.load(stream, Loader=loader)
+    definitions = []
     parsed_packets = {}
     parsed_files = []
     has_information_class = False
-    for name, value in parsed.items():
-        if isinstance(value, InformationClass):
-            has_information_class = True
-            break
     for name, value in parsed.items():
         if name.startswith('.'):
             logging.debug("Skipping hidden entry %s", name)
@@ -53,27 +52,37 @@ def parse_stream(stream, loader):
             for filename in value:
                 parsed_files.append(filename)
                 for inc_name, inc_value in parse_file(filename, loader):
-                    parsed_packets[inc_name] = inc_value
-                    if not has_information_class:
-                        yield inc_name,inc_value
-        elif isinstance(value, InformationClass):
-            class_names = value.packet_classes.values
-            for pkt_name in class_names:
+                    if isinstance(inc_value, (Packet, InformationClass)):
+                        # The included file may go on to change a packet it yields
+                        inc_value = copy.deepcopy(inc_value)
+                        parsed_packets[inc_name] = inc_value
+                        definitions.append((inc_name, inc_value))
+        elif isinstance(value, (Packet, InformationClass)):
+            logging.info('Processing YAML class definition: %s', name)
+            if isinstance(value, InformationClass):
+                has_information_class = True
+            parsed_packets[name] = value
+            definitions.append((name, value))
+        else:
+            raise TypeError('{} is neither a packet nor an information class'.format(name))
+
+    # A definition may refer to any other, wherever in the file that one is
+    for name, value in definitions:
+        if isinstance(value, AcknowledgePacket) and parsed.get(name) is value:
+            ctrl_packet = parsed_packets.get(value.responds_to, None)
+            if not isinstance(ctrl_packet, ControlPacket):
+                raise ValueError('Unknown control packet provided in responds_to for', name)
+            value.update_from_control(ctrl_packet)
+
+    for name, value in definitions:
+        if not has_information_class:
+            yield name,value
+        elif isinstance(value, InformationClass) and parsed.get(name) is value:
+            for pkt_name in value.packet_classes.values:
                 packet = parsed_packets.get(pkt_name, None)
-                if packet:
-                    packet.class_id.information_code.value = value.code
-                    yield pkt_name,packet
-                else:
+                if not isinstance(packet, Packet):
                     raise ValueError('Unknown packet class:', pkt_name)
+                packet.class_id.information_code.value = value.code
+                yield pkt_name,packet
             yield name,value
-        else:
-            logging.info('Processing YAML class definition: %s', name)
-            parsed_packets[name] = value
-            if isinstance(value, AcknowledgePacket):
-                ctrl_packet = parsed_packets.get(value.responds_to, None)
-                if not ctrl_packet:
-                    raise ValueError('Unknown control packet provided in responds_to for', name)
-                value.update_from_control(ctrl_packet)
-            if not has_information_class:
-                yield name,value
     yield 'files',parsed_files
-- 
2.43.0


From c2d045ffc7eda642704902e5a7fe5f33b4ee4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:02 +0000
Subject: [PATCH 30/36] fix: information classes accept only their own options,
 and a duplicate packet fails the generator

---
 src/vrtgen/backend/cpp/generator.py    |  2 +-
 src/vrtgen/parser/model/information.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 54e5482..e35f32b 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -505,7 +505,7 @@ class CppGenerator(Generator):
                 logging.info('Duplicate packet name detected: %s', name)
                 if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:
                     logging.error('Attempt to add duplicate packet type %s to Information Class %s', name, packet.class_id.information_code.value)
-                    raise SystemExit()
+                    raise SystemExit(1)
                 else: # Set flag and do not add packet
                     existing_packet.supports_multiple_information_codes = True
                     return
diff --git a/src/vrtgen/parser/model/information.py b/src/vrtgen/parser/model/information.py
index 83c2031..b884323 100644
--- a/src/vrtgen/parser/model/information.py
+++ b/src/vrtgen/parser/model/information.py
@@ -1,6 +1,7 @@
 from dataclasses import dataclass, field
 
 from vrtgen.parser.model.base import Packet, ListType
+from vrtgen.parser.value import parse_unsigned
 
 
 @dataclass
@@ -9,10 +10,14 @@ class InformationClass:
     packet_classes : ListType = field(default_factory=lambda: ListType('packet_classes', type_=Packet))
 
     def _validate(self, mapping):
-        # for field in mapping:
-        #     if not field in [f.name for f in self.fields]:
-        #         raise ValueError('invalid information class field provided: ' + field)
-        pass
+        for field,val in mapping.items():
+            if field == 'code':
+                parse_unsigned(val, 16)
+            elif field == 'packet_classes':
+                if not isinstance(val, list) or not all(isinstance(name, str) for name in val):
+                    raise TypeError('packet_classes must be a list of packet names')
+            else:
+                raise ValueError('invalid information class field provided: ' + field)
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
-- 
2.43.0


From 4c401ca4c0e75bae2fba42ed86e19c0d388f858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 31/36] fix: CIF7 attributes are stored, laid out and decoded
 with the field they describe

---
 include/vrtgen/packing/cif7.hpp               | 61 ++++++++++++++++
 .../templates/macros/function_decls.jinja2    |  7 +-
 .../function_defs/bytes_required.jinja2       |  3 +
 .../templates/macros/function_defs/cif.jinja2 | 60 ++++++++++++----
 .../macros/function_defs/constructors.jinja2  | 55 ++++++++-------
 .../cpp/templates/macros/members.jinja2       | 13 +---
 .../templates/macros/types/user_class.jinja2  | 70 +++++++++----------
 src/vrtgen/backend/cpp/type_helpers.py        | 12 ++++
 8 files changed, 187 insertions(+), 94 deletions(-)

diff --git a/include/vrtgen/packing/cif7.hpp b/include/vrtgen/packing/cif7.hpp
index a3f5d21..700200f 100644
--- a/include/vrtgen/packing/cif7.hpp
+++ b/include/vrtgen/packing/cif7.hpp
@@ -22,7 +22,12 @@
 #include <concepts>
 #include <type_traits>
 
+#include <algorithm>
+#include <cstring>
+#include <span>
+
 #include <vrtgen/types.hpp>
+#include "bounds.hpp"
 #include "indicator_fields.hpp"
 
 namespace vrtgen::packing {
@@ -32,8 +37,64 @@ namespace cif7 {
 template <typename T, typename V, std::size_t N, std::size_t R>
 concept is_scalar =
     (std::is_integral_v<V> && std::same_as<T,V>) ||
+    (std::is_enum_v<V> && std::is_integral_v<T>) ||
     (std::is_floating_point_v<V> && (N>0) && (N>R));
 
+/**
+ * @brief Number of bytes an attribute takes up
+ * @param value Attribute as it is stored, numbers in network byte order
+ *
+ * Numbers narrower than a word are kept in the lower bits of one
+ */
+template <typename T>
+auto packed_size(const T& value) -> std::size_t
+{
+    if constexpr (std::is_class_v<T>) {
+        return value.size();
+    } else {
+        return std::max(sizeof(T), sizeof(uint32_t));
+    }
+}
+
+/**
+ * @brief Pack an attribute into the buffer
+ * @param value Attribute as it is stored, numbers in network byte order
+ * @param buffer_ptr Pointer to buffer location to add the attribute's bytes
+ * @return Number of bytes packed
+ */
+template <typename T>
+auto pack_into(const T& value, uint8_t* buffer_ptr) -> std::size_t
+{
+    const auto size = packed_size(value);
+    if constexpr (std::is_class_v<T>) {
+        value.pack_into(buffer_ptr);
+    } else {
+        std::memset(buffer_ptr, 0, size - sizeof(T));
+        std::memcpy(buffer_ptr + size - sizeof(T), &value, sizeof(T));
+    }
+    return size;
+}
+
+/**
+ * @brief Unpack an attribute after checking that all of its bytes are there
+ * @param value Attribute as it is stored, numbers in network byte order
+ * @param data Bytes being decoded
+ * @param pos Position of the attribute's first byte
+ * @return Number of bytes unpacked
+ */
+template <typename T>
+auto unpack_from(T& value, std::span<const uint8_t> data, std::size_t pos) -> std::size_t
+{
+    if constexpr (std::is_class_v<T>) {
+        unpack_field(value, data, pos);
+    } else {
+        const auto size = packed_size(value);
+        require_bytes(data, pos, size);
+        std::memcpy(&value, data.data() + pos + size - sizeof(T), sizeof(T));
+    }
+    return packed_size(value);
+}
+
 } // end namespace cif7
 
 /**
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
index e3566f2..7c22a81 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
@@ -67,18 +67,13 @@ auto {{ field.name }}(const {{ type_helper.value_type(field) }}{{ '&' if not typ
 
 {{ setters(field, type_helper) | trim }}
 {% if cif7.enabled and not field.indicator_only %}
-{%   set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 
 /**
  * @brief Returns a reference to {{ field.name }} attributes
  * @return A reference to {{ field.name }} attributes
  */
 [[nodiscard]]
-{%     if field.is_fixed_point %}
-auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{{ '>' if field.is_optional }}&;
-{%     else %}
-auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }}>{{ '>' if field.is_optional }}&;
-{%     endif %}
+auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.attributes_type(cif7.attributes, field) }}{{ '>' if field.is_optional }}&;
 {% endif %}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index 0a06f45..92e5b89 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -182,6 +182,9 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
+{% endif %}
+{% if packet.cif7.enabled %}
+    bytes += m_{{ packet.cif7.name }}.size();
 {% endif %}
     return bytes;
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 0694665..69b3f22 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -128,6 +128,12 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%   else %}
     m_{{ field.name }}{{ '->' if field.is_optional else '.' }}pack_into(m_data.data() + pos);
 {%   endif %}
+{%   if cif7.enabled and field.is_optional %}
+    if (!m_{{ field.name }}_attributes.has_value()) {
+        m_{{ field.name }}_attributes.emplace();
+    }
+    resize_field("{{ field.name }}_attributes", m_{{ field.name }}_attributes->size());
+{%   endif %}
 {% else %}
     m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(value);
 {% endif %}
@@ -144,6 +150,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
+{%   if cif7.enabled %}
+        resize_field("{{ field.name }}_attributes", 0);
+        m_{{ field.name }}_attributes.reset();
+{%   endif %}
 {%   if type_helper.is_scalar(field) %}
         const auto pos{ m_positions.at("{{ field.name }}") };
 {%     if field.type_.reserved_bits > 0 %}
@@ -161,13 +171,8 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
-{%   set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 
-{%     if field.is_fixed_point %}
-auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{{ '>' if field.is_optional }}&
-{%     else %}
-auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }}>{{ '>' if field.is_optional }}&
-{%     endif %}
+auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.attributes_type(cif7.attributes, field) }}{{ '>' if field.is_optional }}&
 {
     return m_{{ field.name }}_attributes;
 }
@@ -249,6 +254,25 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 }
 {% endmacro %}
 
+{%- macro sync_attributes(packet, cif) %}
+{% for field in cif.fields if field.enabled and packet.cif7.enabled and not field.indicator_only %}
+{%   if field.is_optional %}
+if ({{ 'm_' + cif.name + '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}()) {
+    if (!m_{{ field.name }}_attributes.has_value()) {
+        m_{{ field.name }}_attributes.emplace();
+    }
+    resize_field("{{ field.name }}_attributes", m_{{ field.name }}_attributes->size());
+    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+} else {
+    m_{{ field.name }}_attributes.reset();
+}
+{%   else %}
+resize_field("{{ field.name }}_attributes", m_{{ field.name }}_attributes.size());
+m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+{%   endif %}
+{% endfor %}
+{% endmacro %}
+
 {%- macro sync_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif0.fields if field.enabled and not type_helper.is_scalar(field) %}
@@ -268,15 +292,7 @@ resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
-{%   for field in packet.cif0.fields if field.enabled and packet.cif7.enabled and not field.indicator_only %}
-{%     if field.is_optional %}
-if (m_{{ field.name }}_attributes.has_value()) {
-    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-}
-{%     else %}
-m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-{%     endif %}
-{%   endfor %}
+{{ sync_attributes(packet, packet.cif0) | trim }}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not type_helper.is_scalar(field) %}
@@ -308,6 +324,7 @@ resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
+{{ sync_attributes(packet, packet.cif1) | trim }}
 {% endif %}
 {% if packet.cif1.enabled and packet.cif1.is_optional %}
 if (m_{{ packet.cif1.name }}.has_value() && m_{{ packet.cif1.name }}->none()) {
@@ -344,6 +361,7 @@ resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
+{{ sync_attributes(packet, packet.cif2) | trim }}
 {% endif %}
 {% if packet.cif2.enabled and packet.cif2.is_optional %}
 if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->none()) {
@@ -411,6 +429,10 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
+{%     if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+curr_pos += m_sizes["{{ field.name }}_attributes"];
+{%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
@@ -440,6 +462,10 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
+{%     if packet.cif7.enabled %}
+{{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}_attributes"];
+{%     endif %}
 {%   endfor %}
 {%   if packet.cif1.is_optional %}
 }
@@ -472,6 +498,10 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
+{%     if packet.cif7.enabled %}
+{{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}_attributes"];
+{%     endif %}
 {%   endfor %}
 {%   if packet.cif2.is_optional %}
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 1bf0cc1..0f8e833 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -94,6 +94,16 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 {% endif %}
 {% endmacro %}
 
+{%- macro construct_attributes(packet, field) %}
+{% if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%   if not field.is_optional %}
+m_sizes["{{ field.name }}_attributes"] = m_{{ field.name }}_attributes.size();
+curr_pos += m_sizes.at("{{ field.name }}_attributes");
+{%   endif %}
+{% endif %}
+{%- endmacro %}
+
 {%- macro construct_cifs(packet, type_helper) %}
 {% set ns = namespace(has_cif0_field=false,has_cif1_field=false,has_cif2_field=false) %}
 {% if packet.cif0.enabled %}
@@ -148,12 +158,7 @@ m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
-{%     if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-{%       if not field.is_optional %}
-curr_pos += m_{{ field.name }}_attributes.size();
-{%       endif %}
-{%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%     if loop.last and ns.has_cif0_field %}
 m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 {%     endif %}
@@ -190,6 +195,7 @@ m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%   endfor %}
 {% elif packet.cif1.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
@@ -223,6 +229,7 @@ m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
 {%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%   endfor %}
 {% elif packet.cif2.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
@@ -314,6 +321,17 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 vrtgen::packing::require_bytes(m_data, 0, curr_pos);
 {% endmacro%}
 
+{%- macro unpack_attributes(packet, field, type_helper) %}
+{% if packet.cif7.enabled %}
+{%   if field.is_optional %}
+m_{{ field.name }}_attributes.emplace();
+{%   endif %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+m_sizes["{{ field.name }}_attributes"] = m_{{ field.name }}_attributes{{ '->' if field.is_optional else '.' }}unpack_from(m_data, curr_pos);
+curr_pos += m_sizes.at("{{ field.name }}_attributes");
+{% endif %}
+{%- endmacro %}
+
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
@@ -375,9 +393,6 @@ curr_pos += m_{{ packet.cif7.name }}.size();
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
 m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
-{%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-{%       endif %}
 if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
@@ -390,17 +405,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
-{%       if packet.cif7.enabled %}
-{%         set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
-    m_positions.at("{{ field.name }}_attributes") = curr_pos;
-{%         if field.is_fixed_point %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{};
-{%         else %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
-{%         endif %}
-    vrtgen::packing::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}_attributes->size();
-{%       endif %}
+    {{ unpack_attributes(packet, field, type_helper) | indent(4) | trim }}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -413,11 +418,7 @@ vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ fie
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
-{%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-vrtgen::packing::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
-curr_pos += m_{{ field.name }}_attributes.size();
-{%       endif %}
+{{ unpack_attributes(packet, field, type_helper) | trim }}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -441,6 +442,7 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
+    {{ unpack_attributes(packet, field, type_helper) | indent(4) | trim }}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -453,6 +455,7 @@ vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ fie
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
+{{ unpack_attributes(packet, field, type_helper) | trim }}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -476,6 +479,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
+    {{ unpack_attributes(packet, field, type_helper) | indent(4) | trim }}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -488,6 +492,7 @@ vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ fie
 m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_sizes.at("{{ field.name }}");
 {%       endif %}
+{{ unpack_attributes(packet, field, type_helper) | trim }}
 {%     endif %}
 {%   endfor %}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/members.jinja2 b/src/vrtgen/backend/cpp/templates/macros/members.jinja2
index 02e76bc..61b46c6 100644
--- a/src/vrtgen/backend/cpp/templates/macros/members.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/members.jinja2
@@ -32,19 +32,10 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }};
 {% endmacro %}
 
 {%- macro attributes_member(attrs_field, field, type_helper) %}
-{% set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 {%   if field.is_optional %}
-{%     if field.is_fixed_point %}
-std::optional<{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>> m_{{ field.name }}_attributes;
-{%     else %}
-std::optional<{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }}>> m_{{ field.name }}_attributes;
-{%     endif %}
+std::optional<{{ type_helper.attributes_type(attrs_field, field) }}> m_{{ field.name }}_attributes;
 {%   else %}
-{%     if field.is_fixed_point %}
-{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}> m_{{ field.name }}_attributes;
-{%     else %}
-{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }}> m_{{ field.name }}_attributes;
-{%     endif %}
+{{ type_helper.attributes_type(attrs_field, field) }} m_{{ field.name }}_attributes;
 {%   endif %}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index a51b4b3..abe9ef5 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -138,19 +138,22 @@ auto {{ class.type_ }}::{{ field.name }}(const bool value) -> void
 {% endmacro %}
 
 {%- macro template_class(class, type_helper) %}
+{% set fields = class.fields | selectattr('enabled') | rejectattr('name', 'equalto', 'current_value') | list %}
 template <typename T, typename V=T, std::size_t N=0, std::size_t R=0>
 class {{ class.type_ }}
 {
 public:
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
+{% for field in fields %}
+{%   if field.template_type %}
     auto {{ field.name }}() -> V
     requires vrtgen::packing::cif7::is_scalar<T,V,N,R>
     {
         auto swapped{ vrtgen::swap::from_be(m_{{ field.name }}) };
         if constexpr (std::is_floating_point_v<V>) {
             return vrtgen::fixed::to_fp<N,R>(swapped);
+        } else {
+            return static_cast<V>(swapped);
         }
-        return swapped;
     }
 
     [[nodiscard]]
@@ -166,7 +169,7 @@ public:
         if constexpr (std::is_floating_point_v<V>) {
             m_{{ field.name }} = vrtgen::swap::to_be(static_cast<T>(vrtgen::fixed::to_int<N,R>(value)));
         } else {
-            m_{{ field.name }} = vrtgen::swap::to_be(value);
+            m_{{ field.name }} = vrtgen::swap::to_be(static_cast<T>(value));
         }
     }
 
@@ -175,6 +178,18 @@ public:
     {
         m_{{ field.name }} = value;
     }
+{%   else %}
+    [[nodiscard]]
+    auto {{ field.name }}() -> {{ type_helper.value_type(field) }}&
+    {
+        return m_{{ field.name }};
+    }
+
+    auto {{ field.name }}(const {{ type_helper.value_type(field) }}& value) -> void
+    {
+        m_{{ field.name }} = value;
+    }
+{%   endif %}
 
 {% endfor %}
     /**
@@ -184,15 +199,9 @@ public:
     auto size() const -> size_t
     {
         std::size_t retval{ 0 };
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += sizeof(m_{{ field.name }});
+{% for field in fields %}
+        retval += vrtgen::packing::cif7::packed_size(m_{{ field.name }});
 {% endfor %}
-        } else {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += m_{{ field.name }}.size();
-{% endfor %}
-        }
         return retval;
     }
 
@@ -200,43 +209,30 @@ public:
      * @brief Pack {{ class.type_ }} as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add {{ class.type_ }} bytes
      */
-    auto pack_into(uint8_t* buffer_ptr) const -> void
+    auto pack_into([[maybe_unused]] uint8_t* buffer_ptr) const -> void
     {
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(buffer_ptr, &m_{{ field.name }}, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
-{% endfor %}
-        } else {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.pack_into(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
+{% for field in fields %}
+        buffer_ptr += vrtgen::packing::cif7::pack_into(m_{{ field.name }}, buffer_ptr);
 {% endfor %}
-        }
     }
 
     /**
-     * @brief Unpack buffer bytes into {{ class.type_ }}
-     * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
+     * @brief Unpack packet bytes into {{ class.type_ }}
+     * @param data Bytes of the packet
+     * @param pos Position of the first {{ class.type_ }} byte in the packet
+     * @return Number of {{ class.type_ }} bytes
      */
-    auto unpack_from(const uint8_t* buffer_ptr) -> void
+    auto unpack_from([[maybe_unused]] std::span<const uint8_t> data, [[maybe_unused]] std::size_t pos) -> size_t
     {
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(&m_{{ field.name }}, buffer_ptr, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
+{% for field in fields %}
+        pos += vrtgen::packing::cif7::unpack_from(m_{{ field.name }}, data, pos);
 {% endfor %}
-        } else {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.unpack_from(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
-{% endfor %}
-        }
+        return size();
     }
 
 private:
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-    T m_{{ field.name }};
+{% for field in fields %}
+    {{ type_helper.member_type(field) }} m_{{ field.name }}{};
 {% endfor %}
 
 }; // end class {{ class.type_ }}
diff --git a/src/vrtgen/backend/cpp/type_helpers.py b/src/vrtgen/backend/cpp/type_helpers.py
index a292dda..e61243b 100644
--- a/src/vrtgen/backend/cpp/type_helpers.py
+++ b/src/vrtgen/backend/cpp/type_helpers.py
@@ -179,6 +179,18 @@ class TypeHelper:
         else:
             return self.value_type(field)
 
+    def attributes_type(self, attributes, field):
+        """
+        Returns the type of the CIF7 attributes that follow a CIF field.
+        """
+        if field.is_fixed_point:
+            args = [self.member_type(field), self.value_type(field), field.type_.bits, field.type_.radix]
+        elif field.is_enum:
+            args = ['int{}_t'.format(field.type_.bits), self.value_type(field)]
+        else:
+            args = [self.member_type(field)]
+        return '{}<{}>'.format(self.value_type(attributes), ','.join(str(arg) for arg in args))
+
     def requires_get_set(self, field):
         return False
 
-- 
2.43.0


From 08faf3ffe0966675182a2803502dccdca1a6c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:44 +0000
Subject: [PATCH 32/36] fix: generate every definition file named on the
 command line

---
 src/vrtgen/main.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 90a5ded..4135aa8 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -56,14 +56,7 @@ def main():
         epilog="Run '%(prog)s GENERATOR --help' for more information on a generator.",
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
-    sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR')
-    arg_parser.add_argument(
-        'filename',
-        nargs='+',
-        help='VRT YAML definition file',
-        metavar='FILENAME'
-    )
-
+    sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR', required=True)
     def _add_backend_parser(name, version, generator):
         backend_parser = sub_parser.add_parser(
             name,
@@ -74,7 +67,7 @@ def main():
         )
         backend_parser.add_argument(
             'filename',
-            nargs='*',
+            nargs='+',
             help='VRT YAML definition file',
             metavar='FILENAME'
         )
-- 
2.43.0


From 03e8238f46154bb94359c1ab2c6f594ce5b06d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:57 +0000
Subject: [PATCH 33/36] fix: keep a packet's own types out of a namespace of
 the class's name

---
 src/vrtgen/backend/cpp/generator.py           | 31 ++++++++++++-------
 .../backend/cpp/templates/packet.cpp.jinja2   |  4 +--
 .../backend/cpp/templates/packet.hpp.jinja2   |  8 ++---
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index e35f32b..f4e504a 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -53,6 +53,14 @@ def name_to_snake(name):
         return ''
     return str(name[0].lower()) + ''.join(map_char(ch) for ch in name[1:])
 
+def name_to_namespace(name):
+    """
+    Returns the name of the namespace for a packet's own types, which differs
+    from the class name.
+    """
+    snake = name_to_snake(name)
+    return snake + '_' if snake == name else snake
+
 class CppPacket:
     def __init__(self, name, packet):
         self.name = name
@@ -278,28 +286,28 @@ class CppPacket:
             if self.cif1 and self.cif1.enabled:#(self.is_context or self.is_control or (self.is_ack and self.config.is_ack_s)):
                 if self.cif1.sector_step_scan.enabled:
                     sector_step_scan = self.cif1.sector_step_scan.type_
-                    sector_step_scan.packet_name = name_to_snake(self.name)
+                    sector_step_scan.packet_name = name_to_namespace(self.name)
                     record = sector_step_scan.records.type_
-                    record.packet_name = name_to_snake(self.name)
+                    record.packet_name = name_to_namespace(self.name)
                     for field in sector_step_scan.subfield_cif.fields:
                         if field.enabled:
                             record.__dict__[field.name].enabled = True
                             record.__dict__[field.name].required = True
                     return_value.append(record)
                 if self.cif1.discrete_io_32.enabled and len(self.cif1.discrete_io_32.type_.subfields) > 0:
-                    self.cif1.discrete_io_32.type_.packet_name = name_to_snake(self.name)
+                    self.cif1.discrete_io_32.type_.packet_name = name_to_namespace(self.name)
                     return_value.append(self.cif1.discrete_io_32.type_)
                 if self.cif1.discrete_io_64.enabled and len(self.cif1.discrete_io_64.type_.subfields) > 0:
-                    self.cif1.discrete_io_64.type_.packet_name = name_to_snake(self.name)
+                    self.cif1.discrete_io_64.type_.packet_name = name_to_namespace(self.name)
                     return_value.append(self.cif1.discrete_io_64.type_)
             if self.cif7 and self.cif7.enabled:
-                self.cif7.attributes.packet_name = name_to_snake(self.name)
+                self.cif7.attributes.packet_name = name_to_namespace(self.name)
                 return_value.append(self.cif7.attributes)
         if self.trailer and self.trailer.enabled and self.trailer.is_user_defined:
-            self.trailer.packet_name = name_to_snake(self.name)
+            self.trailer.packet_name = name_to_namespace(self.name)
             return_value.append(self.trailer)
         if self.stream_id and self.stream_id.user_defined:
-            self.stream_id.packet_name = name_to_snake(self.name)
+            self.stream_id.packet_name = name_to_namespace(self.name)
             return_value.append(self.stream_id)
         return return_value
 
@@ -310,16 +318,16 @@ class CppPacket:
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-                        field.packet_name = name_to_snake(self.name)
+                        field.packet_name = name_to_namespace(self.name)
                         retval.append(format_enum(field.type_))
             if self.cif1.discrete_io_64.enabled:
                 for field in self.cif1.discrete_io_64.type_.fields:
                     if isinstance(field, EnumType):
-                        field.packet_name = name_to_snake(self.name)
+                        field.packet_name = name_to_namespace(self.name)
                         retval.append(format_enum(field.type_))
         if self.trailer and len(self.trailer.enums) > 0:
             for enum in self.trailer.enums:
-                enum.packet_name = name_to_snake(self.name)
+                enum.packet_name = name_to_namespace(self.name)
                 retval.append(format_enum(enum.type_))
         return retval
 
@@ -335,7 +343,8 @@ class CppGenerator(Generator):
         self.env.filters.update({
             'sort_packed_tags' : sort_packed_tags,
             'format_docstring' : format_docstring,
-            'to_snake' : name_to_snake
+            'to_snake' : name_to_snake,
+            'to_namespace' : name_to_namespace
         })
         self.filename = None
         self.basename = None
diff --git a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
index f407538..afc2d0a 100644
--- a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
@@ -121,13 +121,13 @@ namespace {{ namespace_ }}::packets {
 {% for packet in packets if packet.enums or packet.structs or packet.cif7.enabled %}
 {%   if packet.structs %}
 
-namespace {{ packet.name | to_snake }}::structs {
+namespace {{ packet.name | to_namespace }}::structs {
 
 {%     for struct in packet.structs if not struct.is_template %}
 {{ user_class.def(struct, type_helper) | trim }}
 
 {%     endfor %}
-} // end namespace {{ packet.name | to_snake }}::structs
+} // end namespace {{ packet.name | to_namespace }}::structs
 {%   endif %}
 {% endfor %}
 {% for packet in packets %}
diff --git a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
index b34386d..16ec9f6 100644
--- a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
@@ -68,23 +68,23 @@ namespace {{ namespace_ }}::packets {
 {% for packet in packets if packet.enums or packet.structs or packet.cif7.enabled %}
 {%   if packet.enums %}
 
-namespace {{ packet.name | to_snake }}::enums {
+namespace {{ packet.name | to_namespace }}::enums {
 
 {%     for enum in packet.enums %}
 {{ define_enum(enum) | trim }}
 
 {%     endfor %}
-} // end namespace {{ packet.name | to_snake }}::enums
+} // end namespace {{ packet.name | to_namespace }}::enums
 {%   endif %}
 {%   if packet.structs %}
 
-namespace {{ packet.name | to_snake }}::structs {
+namespace {{ packet.name | to_namespace }}::structs {
 
 {%     for struct in packet.structs %}
 {{ user_class.decl(struct, type_helper) | trim }}
 
 {%     endfor %}
-} // end namespace {{ packet.name | to_snake }}::structs
+} // end namespace {{ packet.name | to_namespace }}::structs
 {%   endif %}
 {% endfor %}
 
-- 
2.43.0


From 6f5d7a7065560ea167819d9b3d16a70ea365a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:57 +0000
Subject: [PATCH 34/36] fix: let generated files include each other under the
 chosen extensions

---
 src/vrtgen/backend/cpp/generator.py                         | 5 ++++-
 src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2  | 2 +-
 src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2      | 2 +-
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2      | 2 +-
 src/vrtgen/backend/cpp/templates/main.cpp.jinja2            | 2 +-
 6 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index f4e504a..91aa44b 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -414,7 +414,9 @@ class CppGenerator(Generator):
             'namespace_': self.namespace_,
             'project_name': self.output_dir,
             'project_version': '0.1.0',
-            'cmd_socket': self.cmd_socket
+            'cmd_socket': self.cmd_socket,
+            'header_ext': self.header_ext,
+            'source_ext': self.source_ext
         }
 
         self.include_dir = self.output_dir
@@ -489,6 +491,7 @@ class CppGenerator(Generator):
             context['information_class'] = self.information_class[1]
             context['controller_name'] = 'Controller' # self.information_class[0] + 'Controller'
             context['cmd_socket'] = self.cmd_socket
+            context['header_ext'] = self.header_ext
             template = self.env.get_template('controller.hpp.jinja2')
             self.controller_file = '{}.{}'.format(context['controller_name'], self.header_ext)
             with open(os.path.join(self.include_dir, self.controller_file), 'w') as fp:
diff --git a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2 b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
index 638df95..145c51a 100644
--- a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
+++ b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
@@ -1,6 +1,6 @@
 add_library(packetlib
 {% for packet in packets %}
-    {{ packet.name | to_snake }}.cpp
+    {{ packet.name | to_snake }}.{{ source_ext }}
 {% endfor %}
 )
 target_include_directories(packetlib PUBLIC
diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index 0700abf..4d1c8b3 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -80,7 +80,7 @@ auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packe
 {%- macro define_controllee(class_name, base_class_name) %}
 #pragma once
 
-#include <{{ base_class_name }}.hpp>
+#include <{{ base_class_name }}.{{ header_ext }}>
 {% if namespace_ %}
 
 namespace {{ namespace_ }}::controllee {
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 26e7da4..c142c6b 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -190,7 +190,7 @@ m_cmd_socket.write_some(packed_data.data(), packed_data.size());
 {% endif %}
 
 {% for packet in packets if packet.is_command %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index a5ee5c6..1e2a34d 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -33,7 +33,7 @@
 #include <vrtgen/socket.hpp>
 {% endif %}
 {% for packet in packets %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
index c83f8b4..8211f0d 100644
--- a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
@@ -17,7 +17,7 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 {% for packet in packets %}
-#include <{{packet.name | to_snake}}.hpp>
+#include <{{packet.name | to_snake}}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
-- 
2.43.0


From e3a7b7e2ad8a7d37d3c17eca5dd8db0a484dde3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:57 +0000
Subject: [PATCH 35/36] fix: name a generated project after its directory, not
 the path to it

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 91aa44b..bf50f19 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -412,7 +412,7 @@ class CppGenerator(Generator):
             'packets': self.packets,
             'type_helper': self.type_helper,
             'namespace_': self.namespace_,
-            'project_name': self.output_dir,
+            'project_name': os.path.basename(os.path.abspath(self.output_dir)),
             'project_version': '0.1.0',
             'cmd_socket': self.cmd_socket,
             'header_ext': self.header_ext,
-- 
2.43.0


From 3ae81cc44614bc773f02d0dcd7679e3b93c75f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:19 +0000
Subject: [PATCH 36/36] fix: declare packets in the generated program so that
 their names may be lower case

---
 src/vrtgen/backend/cpp/templates/main.cpp.jinja2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
index 8211f0d..97678e0 100644
--- a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
@@ -29,16 +29,16 @@ auto main() -> int
 {% for packet in packets %}
 {%   if packet.is_ack %}
 {%     if packet.cam.ack_v.enabled %}
-    auto {{ packet.name | to_snake }}_v = {{ packet.name }}VX{};
+    {{ packet.name }}VX {{ packet.name | to_snake }}_v{};
 {%     endif %}
 {%     if packet.cam.ack_x.enabled %}
-    auto {{ packet.name | to_snake }}_x = {{ packet.name }}VX{};
+    {{ packet.name }}VX {{ packet.name | to_snake }}_x{};
 {%     endif %}
 {%     if packet.cam.ack_s.enabled %}
-    auto {{ packet.name | to_snake }}_s = {{ packet.name }}S{};
+    {{ packet.name }}S {{ packet.name | to_snake }}_s{};
 {%     endif %}
 {%   else %}
-    auto {{ packet.name | to_snake }} = {{ packet.name }}{};
+    {{ packet.name }} {{ packet.name | to_snake }}{};
 {%   endif %}
 {% endfor %}
     return 0;
-- 
2.43.0

