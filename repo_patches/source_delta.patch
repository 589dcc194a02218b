From 16690e782f8610792073f41775f1850b3b854303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 01/47] fix: status acknowledgements with required fields
 (generation error, missing size word)

---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 .../cpp/templates/macros/function_defs/constructors.jinja2  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..e723873 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -717,6 +717,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
-- 
2.43.0


From c69449b45aae940e66791bda1963c9d7e9d264ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 02/47] fix: misnamed warning/error indicator fields (operator
 id, RF reference frequency offset, ephemeris reference id)

---
 src/vrtgen/parser/model/command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..86ec096 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From da25d475ca8a2cb8d3b334a0b6689a38a713de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 03/47] fix: controllee command socket is declared only when a
 packet has a controller id

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..5171ac6 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -349,7 +349,7 @@ public:
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
-- 
2.43.0


From 6b1a7cafed20dcbb7381af39fe96f1938e5ddae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 04/47] fix: index list entries are packed in network byte
 order and padded to a word

---
 include/vrtgen/packing/cif1.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..61477f4 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -22,6 +22,7 @@
 #include <vrtgen/types.hpp>
 #include <vrtgen/packing/enums.hpp>
 #include <vrtgen/packing/indicator_fields.hpp>
+#include <algorithm>
 #include <vector>
 #include <type_traits>
 
@@ -1129,23 +1130,24 @@ public:
         std::size_t retval = 0;
         retval += sizeof(m_total_size);
         retval += m_packed.size();
-        if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
-        }
-        return retval;
+        retval += m_entries.size() * sizeof(T);
+        // 8 and 16 bit entries are padded to a 32 bit boundary
+        return (retval + 3) / 4 * 4;
     }
 
     void pack_into(uint8_t* buffer_ptr) const
     {
+        auto* const end = buffer_ptr + size();
         std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
         buffer_ptr += sizeof(m_total_size);
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_entries) {
-            static_assert(std::is_trivially_copyable_v<decltype(elem)>);
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+        for (const T elem : m_entries) {
+            const T be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
+        std::fill(buffer_ptr, end, 0);
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
@@ -1157,8 +1159,10 @@ public:
         ptr += m_packed.size();
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
-            std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
-            ptr += sizeof(m_entries[i]);
+            T be_elem;
+            std::memcpy(&be_elem, ptr, sizeof(be_elem));
+            m_entries[i] = vrtgen::swap::from_be(be_elem);
+            ptr += sizeof(be_elem);
         }
     }
 
-- 
2.43.0


From a55a4004eead99bcea4e5dabc0b54c4393cd6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 05/47] fix: context association list elements are packed in
 network byte order, tag list only when enabled

---
 include/vrtgen/packing/cif0.hpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..86af823 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1466,24 +1466,29 @@ public:
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto elem : m_source_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const uint32_t be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
         for (const auto elem : m_system_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const uint32_t be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
         for (const auto elem : m_vector_component_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const uint32_t be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
         for (const auto elem : m_async_channel_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const uint32_t be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
         for (const auto elem : m_async_channel_tag_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const uint32_t be_elem = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be_elem, sizeof(be_elem));
+            buffer_ptr += sizeof(be_elem);
         }
     }
 
@@ -1499,26 +1504,31 @@ public:
         m_source_list.resize(source_list_size());
         for (std::size_t i=0; i<m_source_list.size(); ++i) {
             std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
+            m_source_list[i] = vrtgen::swap::from_be(m_source_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_system_list.resize(system_list_size());
         for (std::size_t i=0; i<m_system_list.size(); ++i) {
             std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
+            m_system_list[i] = vrtgen::swap::from_be(m_system_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_vector_component_list.resize(vector_component_list_size());
         for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
             std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
+            m_vector_component_list[i] = vrtgen::swap::from_be(m_vector_component_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
             std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
+        m_async_channel_tag_list.resize(async_channel_tag_list_enable() ? async_channel_list_size() : 0);
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
             ptr += sizeof(uint32_t);
         }
     }
-- 
2.43.0


From a7da416e8b274fcd2b2761268b50ed2c1142de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:36 +0000
Subject: [PATCH 06/47] fix: GPS ASCII sentences are padded to a whole number
 of words

---
 include/vrtgen/packing/cif0.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 86af823..74ed9e3 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1090,7 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
+        m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
         number_of_words(m_ascii_sentences.size()/4);
     }
 
-- 
2.43.0


From 640a0b5f7af39b797df07abb77389809ae598192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 07/47] fix: variable-length fields keep their own room when
 their size changes

---
 include/vrtgen/packing/cif0.hpp               | 27 ++++++++
 include/vrtgen/packing/cif1.hpp               | 17 ++++-
 .../templates/macros/function_defs/cif.jinja2 | 66 ++++++++++++++++++-
 src/vrtgen/backend/cpp/type_helpers.py        |  6 ++
 4 files changed, 114 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 74ed9e3..883d7a9 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1104,6 +1104,18 @@ public:
                m_ascii_sentences.size();
     }
 
+    /**
+     * @brief Returns the number of bytes occupied by the packed GPS_ASCII
+     * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
+     * @return Number of packed GPS_ASCII bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint64_t> packed;
+        packed.unpack_from(buffer_ptr);
+        return packed.size() + packed.get<31,32,std::size_t>() * sizeof(uint32_t);
+    }
+
     /**
      * @brief Pack GPS_ASCII as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add GPS_ASCII bytes
@@ -1453,6 +1465,21 @@ public:
         return retval;
     }
 
+    /**
+     * @brief Returns the number of bytes occupied by the packed ContextAssociationLists
+     * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
+     * @return Number of packed ContextAssociationLists bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint64_t> packed;
+        packed.unpack_from(buffer_ptr);
+        const auto async_lists = packed.get<15>() ? 2 : 1;
+        const auto words = packed.get<56,9,std::size_t>() + packed.get<40,9,std::size_t>() +
+            packed.get<31,16,std::size_t>() + packed.get<14,15,std::size_t>() * async_lists;
+        return packed.size() + words * sizeof(uint32_t);
+    }
+
     /**
      * @brief Pack ContextAssociationLists as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add ContextAssociationLists bytes
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 61477f4..c5e5b38 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1135,12 +1135,27 @@ public:
         return (retval + 3) / 4 * 4;
     }
 
+    /**
+     * @brief Returns the number of bytes occupied by the packed IndexList
+     * @param buffer_ptr Pointer to beginning of IndexList bytes in the buffer
+     * @return Number of packed IndexList bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint32_t> packed;
+        packed.unpack_from(buffer_ptr + sizeof(uint32_t));
+        const auto retval = sizeof(uint32_t) + packed.size() + packed.get<19,20,std::size_t>() * sizeof(T);
+        return (retval + 3) / 4 * 4;
+    }
+
     void pack_into(uint8_t* buffer_ptr) const
     {
         auto* const end = buffer_ptr + size();
         std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
         buffer_ptr += sizeof(m_total_size);
-        m_packed.pack_into(buffer_ptr);
+        auto packed = m_packed;
+        packed.template set<19,20>(static_cast<uint32_t>(m_entries.size()));
+        packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const T elem : m_entries) {
             const T be_elem = vrtgen::swap::to_be(elem);
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..eefc888 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -19,6 +19,22 @@
 
 {%- import "macros/function_defs/common.jinja2" as common %}
 
+{%- macro resize_field(field, type_helper) %}
+{
+    // The field may need more or less room than it did before
+    const auto field_pos{ m_positions.at("{{ field.name }}") };
+    const auto old_size{ {{ type_helper.member_type(field) }}::packed_size(m_data.data() + field_pos) };
+    const auto new_size{ m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size() };
+    if (old_size != new_size) {
+        m_data.erase(m_data.begin() + field_pos, m_data.begin() + field_pos + old_size);
+        m_data.insert(m_data.begin() + field_pos, new_size, 0);
+        m_{{ field.name }}{{ '->' if field.is_optional else '.' }}pack_into(m_data.data() + field_pos);
+        update_positions();
+        update_packet_size();
+    }
+}
+{% endmacro %}
+
 {%- macro function_defs(packet_name, cif, type_helper, cif7=none) %}
 {% for field in cif.fields if field.enabled %}
 {% if type_helper.is_scalar(field) %}
@@ -112,12 +128,18 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%       endif %}
 {%     else %}
         m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(), 0);
+{%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+        m_{{ field.name }}->pack_into(m_data.data() + pos);
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
         update_packet_size();
     }
 {%   endif %}
+{%   if type_helper.is_variable_length(field) %}
+    {{ resize_field(field, type_helper) | indent(4) | trim }}
+{%   endif %}
 {%   if type_helper.is_scalar(field) %}
 {%     if field.type_.reserved_bits > 0 %}
     std::memcpy(m_data.data() + pos + sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/, &swapped, sizeof(swapped));
@@ -151,7 +173,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-{%     if field.is_optional %}
+{%     if field.is_optional and type_helper.is_variable_length(field) %}
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ type_helper.member_type(field) }}::packed_size(m_data.data() + pos));
+        m_{{ field.name }}.reset();
+{%     elif field.is_optional %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
         m_{{ field.name }}.reset();
 {%     else %}
@@ -259,14 +284,23 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 if (m_{{ field.name }}.has_value()) {
     if (!m_{{ packet.cif0.name }}.{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if type_helper.is_variable_length(field) %}
+        m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
         update_positions();
         update_packet_size();
     }
+{%       if type_helper.is_variable_length(field) %}
+    {{ resize_field(field, type_helper) | indent(4) | trim }}
+{%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 }
 {%     else %}
+{%       if type_helper.is_variable_length(field) %}
+{{ resize_field(field, type_helper) | trim }}
+{%       endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -298,14 +332,23 @@ if (m_{{ field.name }}.has_value()) {
 {%       endif %}
     if (!m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if type_helper.is_variable_length(field) %}
+        m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
         update_positions();
         update_packet_size();
     }
+{%       if type_helper.is_variable_length(field) %}
+    {{ resize_field(field, type_helper) | indent(4) | trim }}
+{%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
     }
 {%     else %}
+{%       if type_helper.is_variable_length(field) %}
+{{ resize_field(field, type_helper) | trim }}
+{%       endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -333,14 +376,23 @@ if (m_{{ field.name }}.has_value()) {
 {%       endif %}
     if (!m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if type_helper.is_variable_length(field) %}
+        m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
         update_positions();
         update_packet_size();
     }
+{%       if type_helper.is_variable_length(field) %}
+    {{ resize_field(field, type_helper) | indent(4) | trim }}
+{%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
     }
 {%     else %}
+{%       if type_helper.is_variable_length(field) %}
+{{ resize_field(field, type_helper) | trim }}
+{%       endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -397,6 +449,8 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
     curr_pos += sizeof({{ type_helper.member_type(field) }});
+{%       elif type_helper.is_variable_length(field) %}
+    curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -407,6 +461,8 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+{%       elif type_helper.is_variable_length(field) %}
+curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
@@ -426,6 +482,8 @@ if (m_{{ packet.cif1.name }}.has_value()) {
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
+{%       elif type_helper.is_variable_length(field) %}
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -436,6 +494,8 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+{%       elif type_helper.is_variable_length(field) %}
+{{ '    ' if packet.cif1.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
@@ -458,6 +518,8 @@ if (m_{{ packet.cif2.name }}.has_value()) {
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
+{%       elif type_helper.is_variable_length(field) %}
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -468,6 +530,8 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+{%       elif type_helper.is_variable_length(field) %}
+{{ '    ' if packet.cif2.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
diff --git a/src/vrtgen/backend/cpp/type_helpers.py b/src/vrtgen/backend/cpp/type_helpers.py
index a292dda..96f3a3a 100644
--- a/src/vrtgen/backend/cpp/type_helpers.py
+++ b/src/vrtgen/backend/cpp/type_helpers.py
@@ -211,6 +211,12 @@ class TypeHelper:
             return '0'
         return None
 
+    def is_variable_length(self, field):
+        return self.member_type(field).startswith((
+            PACKING_NAMESPACE + 'GPS_ASCII',
+            PACKING_NAMESPACE + 'ContextAssociationLists',
+            PACKING_NAMESPACE + 'IndexList<'))
+
     def is_scalar(self, field):
         if isinstance(field, BooleanType):
             return True
-- 
2.43.0


From d07ddeab6668d71ccb41d0b4bd09951503409d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 08/47] fix: pad bytes after a shorter payload are zero, not
 left over from a longer one

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..4300f13 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::fill_n(m_data.begin() + pos + data.size_bytes(), mod, 0);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::fill_n(m_data.begin() + pos + data.size_bytes(), mod, 0);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From c68a413f5622e18f988385e0153ba4e8799cedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 09/47] fix: 16 bit angles above the signed range do not
 overflow the conversion

---
 include/vrtgen/types/fixed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/types/fixed.hpp b/include/vrtgen/types/fixed.hpp
index 4ec144e..786fdf0 100644
--- a/include/vrtgen/types/fixed.hpp
+++ b/include/vrtgen/types/fixed.hpp
@@ -42,9 +42,10 @@ inline constexpr auto to_int(std::floating_point auto value) noexcept
     } else if constexpr(N > 16) {
         return static_cast<int32_t>(std::round(value * scale));
     } else if constexpr(N > 8) {
-        return static_cast<int16_t>(std::round(value * scale));
+        // Fields that are read back as unsigned use the whole 16 bit range
+        return static_cast<int16_t>(static_cast<int32_t>(std::round(value * scale)));
     } else {
-        return static_cast<int8_t>(std::round(value * scale));
+        return static_cast<int8_t>(static_cast<int32_t>(std::round(value * scale)));
     }
 }
 
-- 
2.43.0


From d5ea0c1ade6a2f105c2cf87f46a10e13fe6611df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 10/47] fix: acknowledgements with several warnings or errors
 keep all of them

---
 src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 | 10 ++++++++--
 src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..87e4e76 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -146,6 +146,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -175,6 +176,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -194,7 +196,7 @@ auto {{ packet_name }}::sync() -> void
     if (m_{{ field_name }}.has_value()) {
         if (!m_{{ packet.wif0.name }}.has_value()) {
             m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
+            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
             update_positions();
             update_packet_size();
         }
@@ -206,11 +208,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
+        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
         m_{{ packet.wif2.name }}->{{ field.name }}(true);
         m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
@@ -231,6 +234,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -260,6 +264,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -291,6 +296,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..cf70b73 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -172,17 +172,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
-- 
2.43.0


From 055eac10a41d293fdbff158cbdfcad7e6eca95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:08 +0000
Subject: [PATCH 11/47] fix: warnings and errors of an acknowledgement can be
 set, changed and reset at any time

---
 .../cpp/templates/ack_packet.cpp.jinja2       | 48 +++++++++------
 .../macros/function_defs/constructors.jinja2  |  1 +
 .../cpp/templates/macros/types/weif.jinja2    | 61 ++++++-------------
 3 files changed, 51 insertions(+), 59 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 87e4e76..2bf7c0c 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -36,86 +36,86 @@ auto {{ packet_name }}::update_positions() -> void
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
+    m_positions["{{ packet.wif0.name }}"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value()) {
         curr_pos += m_{{ packet.wif0.name }}->size();
     }
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
+    m_positions["{{ packet.wif1.name }}"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value()) {
         curr_pos += m_{{ packet.wif1.name }}->size();
     }
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
+    m_positions["{{ packet.wif2.name }}"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value()) {
         curr_pos += m_{{ packet.wif2.name }}->size();
     }
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
+    m_positions["{{ packet.eif0.name }}"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value()) {
         curr_pos += m_{{ packet.eif0.name }}->size();
     }
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
+    m_positions["{{ packet.eif1.name }}"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value()) {
         curr_pos += m_{{ packet.eif1.name }}->size();
     }
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
+    m_positions["{{ packet.eif2.name }}"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value()) {
         curr_pos += m_{{ packet.eif2.name }}->size();
     }
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
@@ -155,6 +155,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
@@ -187,6 +189,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
@@ -219,6 +223,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_w(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
@@ -243,6 +249,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
@@ -275,6 +283,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
@@ -307,6 +317,8 @@ auto {{ packet_name }}::sync() -> void
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
         m_{{ packet.cam.name }}.ack_er(true);
         m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    } else {
+        reset_{{ field_name }}();
     }
 {%   endfor %}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index e723873..2909add 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -697,6 +697,7 @@ curr_pos += m_{{ field.name }}.size();
     }
 {%   endif %}
 {% endif %}
+    update_positions();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..72a7687 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -38,31 +38,26 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
 {% endfor %}
+    if (m_{{ weif.name }}.has_value()) {
         const auto pos{ m_positions.at("{{ weif.name }}") };
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
         m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
+{% if weif.name == packet.wif1.name or weif.name == packet.wif2.name %}
         if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
+            m_{{ packet.wif0.name }}->{{ 'wif1' if weif.name == packet.wif1.name else 'wif2' }}_enable(false);
+            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
         }
-{% else %}
+{% elif weif.name == packet.eif1.name or weif.name == packet.eif2.name %}
         if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
+            m_{{ packet.eif0.name }}->{{ 'eif1' if weif.name == packet.eif1.name else 'eif2' }}_enable(false);
+            m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
         }
+{% else %}
+        m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}(false);
+        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
         update_positions();
         update_packet_size();
@@ -87,26 +82,7 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
-    if (!m_{{ weif.name }}.has_value()) {
-        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
-        update_positions();
-        update_packet_size();
-    }
-    if (!m_{{ weif.name }}->{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ func_name }}"), m_{{ func_name }}->size(), 0);
-        m_{{ weif.name }}->{{ field.name }}(true);
-        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
-        update_positions();
-        update_packet_size();
-    }
-    m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
-{% if is_warning %}
-    m_{{ packet.cam.name }}.ack_w(true);
-{% else %}
-    m_{{ packet.cam.name }}.ack_er(true);
-{% endif %}
-    m_cam.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    sync();
 }
 
 /**
@@ -114,12 +90,15 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    if (m_{{ weif.name }}.has_value() && m_{{ weif.name }}->{{ field.name }}()) {
+        const auto pos{ m_positions.at("{{ func_name }}") };
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ type_helper.member_type(field) }}{}.size());
+        m_{{ weif.name }}->{{ field.name }}(false);
+        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+        update_positions();
+        update_packet_size();
+    }
 }
 
 {% endfor %}
-- 
2.43.0


From 71f55d12caa10a024a911c1401cf90e41362e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 12/47] fix: clearing an optional field drops it even if it was
 set or cleared in place

---
 .../templates/macros/function_defs/cif.jinja2 | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index eefc888..7e28d9c 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -173,19 +173,18 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-{%     if field.is_optional and type_helper.is_variable_length(field) %}
+{%     if type_helper.is_variable_length(field) %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ type_helper.member_type(field) }}::packed_size(m_data.data() + pos));
-        m_{{ field.name }}.reset();
-{%     elif field.is_optional %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
-        m_{{ field.name }}.reset();
 {%     else %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ type_helper.member_type(field) }}{}.size());
 {%     endif %}
 {%   endif %}
         update_positions();
         update_packet_size();
     }
+{%   if not type_helper.is_scalar(field) %}
+    m_{{ field.name }}.reset();
+{%   endif %}
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
@@ -255,12 +254,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {
 {% if cif.is_optional%}
-    if (m_{{ cif.name }}.has_value()) {
 {%   for field in cif.fields if field.is_optional %}
-        if (m_{{ cif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}();
-        }
+    reset_{{ field.name }}();
 {%   endfor %}
+    if (m_{{ cif.name }}.has_value()) {
 {%   if cif.name == 'cif_1' %}
         m_{{ packet.cif0.name }}.cif1_enable(false);
 {%   elif cif.name == 'cif_2' %}
@@ -296,6 +293,8 @@ if (m_{{ field.name }}.has_value()) {
     {{ resize_field(field, type_helper) | indent(4) | trim }}
 {%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+} else {
+    reset_{{ field.name }}();
 }
 {%     else %}
 {%       if type_helper.is_variable_length(field) %}
@@ -344,7 +343,9 @@ if (m_{{ field.name }}.has_value()) {
     {{ resize_field(field, type_helper) | indent(4) | trim }}
 {%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
 {%       if type_helper.is_variable_length(field) %}
 {{ resize_field(field, type_helper) | trim }}
@@ -388,7 +389,9 @@ if (m_{{ field.name }}.has_value()) {
     {{ resize_field(field, type_helper) | indent(4) | trim }}
 {%       endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
 {%       if type_helper.is_variable_length(field) %}
 {{ resize_field(field, type_helper) | trim }}
@@ -452,7 +455,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       elif type_helper.is_variable_length(field) %}
     curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
-    curr_pos += m_{{ field.name }}->size();
+    curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 }
 {%     else %}
@@ -485,7 +488,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%       elif type_helper.is_variable_length(field) %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
-    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
@@ -521,7 +524,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%       elif type_helper.is_variable_length(field) %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + curr_pos);
 {%       else %}
-    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
-- 
2.43.0


From 3c5cfe196966f068531345341f23f17f8a58b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 13/47] fix: sockets release each descriptor exactly once,
 including accepted connections

---
 include/vrtgen/socket/socket_base.hpp |  5 ++++-
 include/vrtgen/socket/tcp.hpp         | 24 +++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..a9b8fe3 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -59,7 +59,10 @@ public:
      */
     void close()
     {
-        ::close(m_socket);
+        if (is_open()) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..9dea93d 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -52,8 +52,21 @@ public:
 
     /**
      * @brief Destructor
+     *        Closes the socket and its accepted connection.
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        close_connection();
+    }
+
+    /**
+     * @brief Close the socket and its accepted connection
+     */
+    void close()
+    {
+        close_connection();
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +94,7 @@ public:
         if (res < 0) {
             return false;
         }
+        close_connection();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -117,6 +131,14 @@ public:
 private:
     int m_connected_socket = this->INVALID_SOCKET;
 
+    void close_connection()
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
     bool m_is_connected() const noexcept
     {
         return m_connected_socket != this->INVALID_SOCKET;
-- 
2.43.0


From 4d617ba2bb217bc5d5abd9b2cd9817e371f23d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 14/47] fix: a socket can not be copied, the copy closed the
 same descriptor again

---
 include/vrtgen/socket/socket_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index a9b8fe3..ec338b4 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -45,6 +45,10 @@ class socket_base
 public:
     using endpoint_type = socket_endpoint<domain_type, socket_type>;
 
+    // The descriptor has one owner
+    socket_base(const socket_base&) = delete;
+    socket_base& operator=(const socket_base&) = delete;
+
     /**
      * @brief Destructor.
      *        Closes the socket.
-- 
2.43.0


From e9bd9963db564866dd7c7c9c144c106dcbed6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 15/47] fix: IPv6 endpoints and sockets compile and carry their
 family and port

---
 include/vrtgen/socket/socket_endpoint.hpp | 62 +++++++++++++++++++++--
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..60c1f50 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -62,6 +62,32 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Set the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object to set the address family of
+     */
+    static void family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin_family = AF_INET;
+    }
+    /**
+     * @brief Extract the port number member (network byte order) from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Reference to the port number from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    /**
+     * @brief Extract the port number member (network byte order) from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return The port number from the given sockaddr
+     */
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +119,32 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Set the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object to set the address family of
+     */
+    static void family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin6_family = AF_INET6;
+    }
+    /**
+     * @brief Extract the port number member (network byte order) from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Reference to the port number from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    /**
+     * @brief Extract the port number member (network byte order) from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return The port number from the given sockaddr
+     */
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -138,8 +190,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        traits::family(m_sockaddr);
+        traits::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +247,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(traits::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +256,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        traits::port(m_sockaddr) = htons(port);
     }
 
     /**
@@ -265,6 +317,8 @@ public:
     }
 
 private:
+    using traits = endpoint::detail::endpoint_traits<domain_type>;
+
     sockaddr_type m_sockaddr;
     socklen_t m_socklen;
 
-- 
2.43.0


From a6950b502c486dc0fb1b8df159af325a837b0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:25 +0000
Subject: [PATCH 16/47] fix: writing to a closed TCP peer reports an error
 instead of raising SIGPIPE

---
 include/vrtgen/socket/tcp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 9dea93d..6fbc0b3 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -108,10 +108,11 @@ public:
      */
     ssize_t write_some(const void* data, const size_t len)
     {
+        // A closed peer is reported as an error, not as a signal that ends the process
         if (m_is_connected()) {
-            return write(m_connected_socket, data, len);
+            return send(m_connected_socket, data, len, MSG_NOSIGNAL);
         }
-        return write(this->m_socket, data, len);
+        return send(this->m_socket, data, len, MSG_NOSIGNAL);
     }
 
     /**
-- 
2.43.0


From 76bc6bcb9228cac07e1aed1cb891629ff8089e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 17/47] fix: commands and acknowledgements are written to TCP
 completely, short and interrupted writes are continued

---
 include/vrtgen/socket/tcp.hpp                 | 28 +++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2  |  8 +++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 6fbc0b3..beea4aa 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -115,6 +115,34 @@ public:
         return send(this->m_socket, data, len, MSG_NOSIGNAL);
     }
 
+    /**
+     * @brief Write all data to the socket, however the writes are cut short or interrupted.
+     *        If a part of the data was written before an error the stream is shut down, its
+     *        contents could not be told apart by the peer any more.
+     * @param data Pointer to start of message data
+     * @param len Size of message
+     * @return Number of bytes written (len) on success, otherwise -1 for error
+     */
+    ssize_t write_all(const void* data, const size_t len)
+    {
+        auto bytes = static_cast<const uint8_t*>(data);
+        auto written = size_t{};
+        while (written < len) {
+            auto res = write_some(bytes + written, len - written);
+            if (res < 0 && errno == EINTR) {
+                continue;
+            }
+            if (res <= 0) {
+                if (written > 0) {
+                    ::shutdown(m_is_connected() ? m_connected_socket : this->m_socket, SHUT_RDWR);
+                }
+                return -1;
+            }
+            written += static_cast<size_t>(res);
+        }
+        return static_cast<ssize_t>(written);
+    }
+
     /**
      * @brief Read data off the socket
      * @param data Pointer to start of buffer where received message data will be written
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 5171ac6..238db6e 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -423,7 +423,7 @@ private:
 {%     elif cmd_socket == 'udp' %}
                     m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+                    m_cmd_socket.write_all(packed_data.data(), packed_data.size());
 {%     endif %}
                 }
 {%   endif %}
@@ -451,7 +451,7 @@ private:
 {%     elif cmd_socket == 'udp' %}
                     m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+                    m_cmd_socket.write_all(packed_data.data(), packed_data.size());
 {%     endif %}
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
@@ -471,7 +471,7 @@ private:
 {%     elif cmd_socket == 'udp' %}
                         m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                        m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+                        m_cmd_socket.write_all(packed_data.data(), packed_data.size());
 {%     endif %}
                     }
 {%     endif %}
@@ -496,7 +496,7 @@ private:
 {%     elif cmd_socket == 'udp' %}
                     m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+                    m_cmd_socket.write_all(packed_data.data(), packed_data.size());
 {%     endif %}
                 }
 {%   endif %}
-- 
2.43.0


From ce9c7705ba4608074b49eb63d419a7a5abb97262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 18/47] fix: a command that could not be handed to the
 transport is reported as a failure

---
 include/vrtgen/nats/utility.hpp                        | 4 +++-
 include/vrtgen/utility.hpp                             | 9 +++++++--
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 | 4 +++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..b88d99c 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -31,7 +31,9 @@ template <class CtrlT, class ...AckT>
 auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT& packet, AckT&... acks)
 {
     // Send packet
-    client.publish(subject, packet.data(), client.inbox());
+    if (auto res = client.publish(subject, packet.data(), client.inbox()); res != NATS_OK) {
+        throw std::runtime_error(std::string("failed to send command packet: ") + natsStatus_GetText(res));
+    }
     // Receive acks on unique reply subject
     const auto recv_ack = [&client](auto& ack)
     {
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..571f243 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -63,7 +63,10 @@ requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
+    const auto sent = socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
+    if (sent != static_cast<ssize_t>(packed_data.size())) {
+        throw std::runtime_error(std::string("failed to send command packet: ") + strerror(errno));
+    }
     const auto recv_ack = [&socket](auto& ack)
     {
         if (!ack.has_value()) { return; }
@@ -91,7 +94,9 @@ requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.write_some(packed_data.data(), packed_data.size());
+    if (socket.write_all(packed_data.data(), packed_data.size()) < 0) {
+        throw std::runtime_error(std::string("failed to send command packet: ") + strerror(errno));
+    }
     auto message = std::array<uint8_t, 65536>{ 0 };
     auto reply_length = 0;
     auto read_idx = std::size_t{};
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..b4548a6 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -72,7 +72,9 @@ public:
         if (auto res = m_client.connect(nats_url); res != NATS_OK) {
             throw std::runtime_error("Failed to connect to NATS url during {{ controller_name }} construction");
         }
-        m_client.new_inbox();
+        if (auto res = m_client.new_inbox(); res != NATS_OK) {
+            throw std::runtime_error("Failed to create reply inbox during {{ controller_name }} construction");
+        }
     }
 {%   else %}
     /**
-- 
2.43.0


From f1401c43c69cacb1f741d2e4665e59da42a727bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 19/47] fix: received packets are read within their bounds only

match() and the unpacking constructors read past the end of short, truncated
or lying packets.
---
 include/vrtgen/packing/cif1.hpp               | 12 +++
 include/vrtgen/utility.hpp                    | 21 ++++
 .../macros/function_defs/constructors.jinja2  | 97 +++++++++++--------
 .../macros/function_defs/match.jinja2         | 79 ++++++++++++++-
 4 files changed, 167 insertions(+), 42 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index c5e5b38..0b45e65 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1035,6 +1035,18 @@ public:
         return retval;
     }
 
+    /**
+     * @brief Returns the number of bytes a packed field takes
+     * @param buffer_ptr Pointer to the beginning of the packed field
+     * @return Number of bytes of the packed field
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        vrtgen::packed<uint32_t> packed;
+        packed.unpack_from(buffer_ptr + sizeof(uint32_t));
+        return SectorStepScan{}.size() + packed.get<11,12,std::size_t>() * T{}.size();
+    }
+
     void pack_into(uint8_t* buffer_ptr) const
     {
         std::memcpy(buffer_ptr, &m_array_size, sizeof(m_array_size));
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 571f243..4895445 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -43,6 +43,27 @@ inline void validate(bool cond, const std::string& msg)
     validate(cond, true, msg);
 }
 
+/**
+ * @brief Unpack a field of a received packet
+ * @param field Field to unpack
+ * @param data Bytes of the packet
+ * @param pos Position of the field in the packet
+ * @throw std::runtime_error The packet ends before the end of the field
+ */
+template <typename T>
+inline void unpack_field(T& field, std::span<uint8_t> data, std::size_t pos)
+{
+    const auto fits = [&data, pos](std::size_t size)
+    {
+        return pos <= data.size() && size <= data.size() - pos;
+    };
+    validate(fits(field.size()), "packet ends before the end of a field");
+    if constexpr (requires { T::packed_size(data.data()); }) {
+        validate(fits(T::packed_size(data.data() + pos)), "packet ends before the end of a field");
+    }
+    field.unpack_from(data.data() + pos);
+}
+
 template <typename T>
 inline bool in_range(const T value, const std::pair<T,T>& min_max)
 {
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 2909add..2a88eae 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -251,14 +251,16 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 {% endmacro %}
 
 {%- macro unpack_prologue(packet, type_helper) %}
+vrtgen::validate(data.size() >= m_{{ packet.header.name }}.size(), "packet is shorter than its header");
 m_{{ packet.header.name }}.unpack_from(data.data());
 m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
+vrtgen::validate(m_data.size() >= m_{{ packet.header.name }}.size() && m_data.size() <= data.size(), "packet does not have its packet size");
 std::memcpy(m_data.data(), data.data(), m_data.size());
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
-m_{{ packet.stream_id.name }}.unpack_from(m_data.data() + curr_pos);
+vrtgen::unpack_field(m_{{ packet.stream_id.name }}, m_data, curr_pos);
 curr_pos += m_{{ packet.stream_id.name }}.size();
 {%   else %}
 curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
@@ -266,7 +268,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packe
 {% endif %}
 {% if packet.class_id.enabled %}
 m_positions["{{ packet.class_id.name }}"] = curr_pos;
-m_{{ packet.class_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.class_id.name }}"));
+vrtgen::unpack_field(m_{{ packet.class_id.name }}, m_data, m_positions.at("{{ packet.class_id.name }}"));
 curr_pos += m_{{ packet.class_id.name }}.size();
 {% endif %}
 {% if packet.timestamp.enabled %}
@@ -282,7 +284,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.fractional) }});
 {% if packet.cam.enabled %}
 m_positions["{{ packet.cam.name }}"] = curr_pos;
 curr_pos += m_{{ packet.cam.name }}.size();
-m_{{ packet.cam.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+vrtgen::unpack_field(m_{{ packet.cam.name }}, m_data, m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
 {% if packet.message_id.enabled %}
 m_positions["{{ packet.message_id.name }}"] = curr_pos;
@@ -293,7 +295,7 @@ m_positions["{{ packet.controllee_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controllee_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controllee_id) }}); // {{ packet.controllee_id.name }}
 {%   else %}
-m_{{ packet.controllee_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controllee_id.name }}"));
+vrtgen::unpack_field(m_{{ packet.controllee_id.name }}, m_data, m_positions.at("{{ packet.controllee_id.name }}"));
 curr_pos += m_{{ packet.controllee_id.name }}.size();
 {%   endif %}
 {% endif %}
@@ -302,7 +304,7 @@ m_positions["{{ packet.controller_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controller_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controller_id) }}); // {{ packet.controller_id.name }}
 {%   else %}
-m_{{ packet.controller_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
+vrtgen::unpack_field(m_{{ packet.controller_id.name }}, m_data, m_positions.at("{{ packet.controller_id.name }}"));
 curr_pos += m_{{ packet.controller_id.name }}.size();
 {%   endif %}
 {% endif %}
@@ -311,7 +313,7 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
-m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
+vrtgen::unpack_field(m_{{ packet.cif0.name }}, m_data, m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
 {% if packet.cif1.enabled %}
@@ -319,12 +321,14 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
-    m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+    vrtgen::unpack_field(*m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
-curr_pos += m_{{ packet.cif1.name }}.size();
+if (m_{{ packet.cif0.name}}.cif1_enable()) {
+    vrtgen::unpack_field(m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
+    curr_pos += m_{{ packet.cif1.name }}.size();
+}
 {%   endif %}
 {% endif %}
 {% if packet.cif2.enabled %}
@@ -332,12 +336,14 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
-    m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+    vrtgen::unpack_field(*m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
-curr_pos += m_{{ packet.cif2.name }}.size();
+if (m_{{ packet.cif0.name}}.cif2_enable()) {
+    vrtgen::unpack_field(m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
+    curr_pos += m_{{ packet.cif2.name }}.size();
+}
 {%   endif %}
 {% endif %}
 {% if packet.cif7.enabled %}
@@ -345,11 +351,11 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
-    m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+    vrtgen::unpack_field(*m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+vrtgen::unpack_field(m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
 {% endif %}
@@ -368,7 +374,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -379,7 +385,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
-    m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
 }
@@ -390,12 +396,12 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
-m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+vrtgen::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
 {%     endif %}
@@ -417,20 +423,22 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
+if (m_{{ packet.cif0.name }}.cif1_enable()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
-curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
+    curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
-curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+    curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-curr_pos += m_{{ field.name }}.size();
+    vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
+    curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -450,20 +458,22 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
+if (m_{{ packet.cif0.name }}.cif2_enable()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
-curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
+    curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
-curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+    curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-curr_pos += m_{{ field.name }}.size();
+    vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
+    curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -479,10 +489,13 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.is_data %}
     m_positions["payload"] = curr_pos;
 {%   if packet.trailer.enabled %}
+    curr_pos += m_{{ packet.trailer.name }}.size();
+    vrtgen::validate(curr_pos <= m_data.size(), "packet ends before its last field");
     m_positions["{{ packet.trailer.name }}"] = m_data.size() - m_{{ packet.trailer.name }}.size();
-    m_{{ packet.trailer.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
+    vrtgen::unpack_field(m_{{ packet.trailer.name }}, m_data, m_positions.at("{{ packet.trailer.name }}"));
 {%   endif %}
 {% endif %}
+    vrtgen::validate(curr_pos <= m_data.size(), "packet ends before its last field");
 }
 {% endmacro %}
 
@@ -500,6 +513,7 @@ curr_pos += m_{{ field.name }}.size();
 {{ packet.name }}::{{ packet.name }}(std::span<const uint8_t> data)
 {
     {{ unpack_prologue(packet, type_helper) | indent(4) | trim }}
+    vrtgen::validate(curr_pos <= m_data.size(), "packet ends before its last field");
 }
 {% endmacro %}
 
@@ -581,13 +595,13 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-        m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::unpack_field(*m_{{ packet.wif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ packet.wif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
 {%   endif %}
@@ -595,7 +609,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ packet.wif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
 {%   endif %}
@@ -605,13 +619,13 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-        m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::unpack_field(*m_{{ packet.eif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ packet.eif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
 {%   endif %}
@@ -619,7 +633,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ packet.eif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
 {%   endif %}
@@ -631,7 +645,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%   endfor %}
@@ -642,7 +656,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -654,7 +668,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -667,7 +681,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%   endfor %}
@@ -678,7 +692,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
@@ -690,7 +704,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
@@ -737,5 +751,6 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ unpack_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    vrtgen::validate(curr_pos <= m_data.size(), "packet ends before its last field");
 }
 {% endmacro %}
\ No newline at end of file
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..3733740 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -17,11 +17,62 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 
+{%- macro match_required_cifs(packet, type_helper) %}
+{% if packet.cif0.enabled and ((packet.cif1.enabled and not packet.cif1.all_optional_fields) or (packet.cif2.enabled and not packet.cif2.all_optional_fields)) %}
+    const auto cif_pos = header.size()
+{%   if packet.stream_id.enabled %}
+        + sizeof({{ type_helper.member_type(packet.stream_id) }}) // {{ packet.stream_id.name }}
+{%   endif %}
+{%   if packet.class_id.enabled %}
+        + {{ packet.class_id.name }}.size()
+{%   endif %}
+{%   if packet.timestamp.enabled and packet.timestamp.integer.enabled %}
+        + sizeof({{ type_helper.member_type(packet.timestamp.integer) }}) // {{ packet.timestamp.integer.name }}
+{%   endif %}
+{%   if packet.timestamp.enabled and packet.timestamp.fractional.enabled %}
+        + sizeof({{ type_helper.member_type(packet.timestamp.fractional) }}) // {{ packet.timestamp.fractional.name }}
+{%   endif %}
+{%   if packet.cam.enabled %}
+        + {{ packet.cam.name }}.size()
+{%   endif %}
+{%   for field in [packet.message_id, packet.controllee_id, packet.controller_id] if field.enabled %}
+{%     if type_helper.is_scalar(field) %}
+        + sizeof({{ type_helper.member_type(field) }}) // {{ field.name }}
+{%     else %}
+        + {{ type_helper.member_type(field) }}{}.size() // {{ field.name }}
+{%     endif %}
+{%   endfor %}
+    ;
+    auto {{ packet.cif0.name }} = {{ type_helper.value_type(packet.cif0) }}{};
+    if (data.size() < cif_pos + {{ packet.cif0.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.cif0.name }}." };
+    }
+    {{ packet.cif0.name }}.unpack_from(data.data() + cif_pos);
+{%   if packet.cif1.enabled and not packet.cif1.all_optional_fields %}
+    if (!{{ packet.cif0.name }}.cif1_enable()) {
+        return { "Failed to match. Packet does not have {{ packet.cif1.name }}." };
+    }
+{%   endif %}
+{%   if packet.cif2.enabled and not packet.cif2.all_optional_fields %}
+    if (!{{ packet.cif0.name }}.cif2_enable()) {
+        return { "Failed to match. Packet does not have {{ packet.cif2.name }}." };
+    }
+{%   endif %}
+{% endif %}
+{% endmacro %}
+
 {%- macro match(packet, type_helper) %}
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < header.size()) {
+        return { "Failed to match. Data is shorter than a packet header." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
+    if (data.size() < header.packet_size() * sizeof(uint32_t)) {
+        return { "Failed to match. Data is shorter than the packet size." };
+    }
+    data = data.first(header.packet_size() * sizeof(uint32_t));
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
@@ -57,6 +108,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.class_id.name }}." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -84,6 +138,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.cam.name }}." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
@@ -105,7 +162,10 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.trailer.enabled and packet.trailer.user_defined %}
     auto {{ packet.trailer.name }} = {{ type_helper.value_type(packet.trailer) }}{};
-    {{ packet.trailer.name }}.unpack_from(data.data() + (header.packet_size() * sizeof(uint32_t)) - {{ packet.trailer.name }}.size());
+    if (data.size() < curr_pos + {{ packet.trailer.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.trailer.name }}." };
+    }
+    {{ packet.trailer.name }}.unpack_from(data.data() + data.size() - {{ packet.trailer.name }}.size());
 {%   for field in packet.trailer.fields if field.enabled and not field.is_optional %}
     if ({{ packet.trailer.name }}.{{ field.name }}_enable() != true) {
         std::ostringstream msg;
@@ -116,6 +176,7 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
     }
 {%    endfor %}
 {% endif %}
+    {{ match_required_cifs(packet, type_helper) | trim }}
     return std::nullopt;
 }
 {% endmacro %}
@@ -124,7 +185,14 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < header.size()) {
+        return { "Failed to match. Data is shorter than a packet header." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
+    if (data.size() < header.packet_size() * sizeof(uint32_t)) {
+        return { "Failed to match. Data is shorter than the packet size." };
+    }
+    data = data.first(header.packet_size() * sizeof(uint32_t));
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
@@ -151,6 +219,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.class_id.name }}." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -178,6 +249,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Failed to match. Packet ends before {{ packet.cam.name }}." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   if is_vx %}
     if (({{ packet.cam.name }}.{{ packet.cam.ack_v.name }}() != true) && ({{ packet.cam.name }}.{{ packet.cam.ack_x.name }}() != true)) {
@@ -214,6 +288,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {%   endfor %}
+{% endif %}
+{% if not is_vx %}
+    {{ match_required_cifs(packet, type_helper) | trim }}
 {% endif %}
     return std::nullopt;
 }
-- 
2.43.0


From cee51b23d4857f8ba480f95c28d0c789c7c3bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 20/47] fix: receive loops look at the received bytes only

The unused rest of the receive buffer completed truncated packets, and a
malformed packet ended the process.
---
 include/vrtgen/utility.hpp                    | 20 +++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2  | 11 ++++------
 .../cpp/templates/controller.hpp.jinja2       |  6 +++---
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 4895445..61b227a 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -24,6 +24,7 @@
 #include <array>
 #include <future>
 #include <sstream>
+#include <optional>
 #include <utility>
 #include <span>
 #include <vrtgen/socket.hpp>
@@ -64,6 +65,25 @@ inline void unpack_field(T& field, std::span<uint8_t> data, std::size_t pos)
     field.unpack_from(data.data() + pos);
 }
 
+/**
+ * @brief Unpack a received message if it is a complete packet of a class
+ * @tparam PacketT Packet class
+ * @param message Received message
+ * @return The packet, empty if the message is none of the class
+ */
+template <typename PacketT>
+inline auto unpack(std::span<const uint8_t> message) -> std::optional<PacketT>
+{
+    if (PacketT::match(message)) {
+        return std::nullopt;
+    }
+    try {
+        return std::optional<PacketT>{ std::in_place, message };
+    } catch (const std::runtime_error&) {
+        return std::nullopt;
+    }
+}
+
 template <typename T>
 inline bool in_range(const T value, const std::pair<T,T>& min_max)
 {
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 238db6e..7500e22 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -382,6 +382,7 @@ private:
             if (message == nullptr) {
                 continue;
             }
+            const auto received = message->data();
 {%     else %}
             auto message = message_buffer{};
 {%       if cmd_socket == 'tcp' %}
@@ -393,16 +394,12 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 {%     endif %}
 
 {%   endif %}
-{%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
-{%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
-{%   endif %}
+            if (auto unpacked = vrtgen::unpack<{{ packet.name }}>(received)) {
+                auto& packet = *unpacked;
 {%   if packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index b4548a6..a3aa2fd 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -122,12 +122,12 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto packet = vrtgen::unpack<{{ packet.name }}>(received)) {
                 if (m_{{ packet.name | to_snake }}_listener) {
-                    m_{{ packet.name | to_snake }}_listener(packet);
+                    m_{{ packet.name | to_snake }}_listener(*packet);
                 }
             }
 {%   if loop.last %}
-- 
2.43.0


From f3a88d8e449ef693e8801ae9ea23df4af7046aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 21/47] fix: packets are cut out of a TCP stream whatever its
 segmentation

A read was taken for exactly one packet: split commands were lost and coalesced
ones skipped.
---
 include/vrtgen/socket/socket_base.hpp         | 21 +++++
 include/vrtgen/socket/tcp.hpp                 | 80 +++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2  |  8 +-
 3 files changed, 107 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index ec338b4..92f85e2 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -21,9 +21,12 @@
 #define VRTGEN_SOCKET_SOCKET_BASE_HPP
 
 #include <sys/socket.h>
+#include <poll.h>
 #include <unistd.h>
 #include <netinet/ip.h>
 #include <arpa/inet.h>
+#include <cerrno>
+#include <chrono>
 #include <cstring>
 #include <stdexcept>
 #include <sys/time.h>
@@ -206,7 +209,25 @@ public:
         setsockopt(m_socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
     }
 
+    /**
+     * @brief Wait until the socket can be read
+     * @param timeout Longest time to wait
+     * @return true if a read does not block, false if nothing arrived in time
+     */
+    bool wait_readable(std::chrono::milliseconds timeout) const
+    {
+        return wait_readable(m_socket, timeout);
+    }
+
 protected:
+    static bool wait_readable(int handle, std::chrono::milliseconds timeout)
+    {
+        struct pollfd handles{ handle, POLLIN, 0 };
+        auto res = ::poll(&handles, 1, static_cast<int>(timeout.count()));
+        // A failing poll is left to the read, which reports the error
+        return res > 0 || (res < 0 && errno != EINTR);
+    }
+
     static constexpr int INVALID_SOCKET = -1;
     static constexpr int STANDARD_PROTOCOL = 0;
     static constexpr auto TIMEOUT = 3; /**< Default socket timeout in seconds */
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index beea4aa..6ca15cf 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -20,7 +20,9 @@
 #ifndef VRTGEN_SOCKET_TCP_HPP
 #define VRTGEN_SOCKET_TCP_HPP
 
+#include <array>
 #include <iostream>
+#include <vector>
 
 #include "socket_base.hpp"
 
@@ -100,6 +102,20 @@ public:
         return true;
     }
 
+    /**
+     * @brief Initiate a connection on the socket
+     * @param endpoint Destination endpoint to connect to socket
+     * @return true on successful connection, otherwise false
+     */
+    bool connect(const endpoint_type& endpoint)
+    {
+        if (!base_type::connect(endpoint)) {
+            return false;
+        }
+        m_received.clear();
+        return true;
+    }
+
     /**
      * @brief Write data to the socket
      * @param data Pointer to start of message data
@@ -157,11 +173,75 @@ public:
         return read(this->m_socket, data, len);
     }
 
+    /**
+     * @brief Wait until a packet or more data can be read
+     * @param timeout Longest time to wait
+     * @return true if read_packet() does not block, false if nothing arrived in time
+     */
+    bool wait_readable(std::chrono::milliseconds timeout) const
+    {
+        if (packet_available()) {
+            return true;
+        }
+        return base_type::wait_readable(m_is_connected() ? m_connected_socket : this->m_socket, timeout);
+    }
+
+    /**
+     * @brief Read the next packet off the socket, however the stream is split into segments.
+     *        At most one read is made, the rest of the stream is kept for the next call.
+     * @param packet Buffer where the bytes of one packet will be written
+     * @return Size of the packet, 0 at the end of the stream, otherwise -1 for error; the error
+     *         is EAGAIN if the packet is not complete yet
+     */
+    ssize_t read_packet(std::vector<uint8_t>& packet)
+    {
+        if (!packet_available()) {
+            std::array<uint8_t, 65536> bytes;
+            auto res = read_some(bytes.data(), bytes.size());
+            if (res <= 0) {
+                if (res == 0) {
+                    m_received.clear();
+                }
+                return res;
+            }
+            m_received.insert(m_received.end(), bytes.begin(), bytes.begin() + res);
+        }
+        auto size = received_packet_size();
+        if (size == 0 && m_received.size() >= sizeof(uint32_t)) {
+            // Not a packet, and no way to tell where the next one begins
+            m_received.clear();
+        }
+        if (size == 0 || m_received.size() < size) {
+            errno = EAGAIN;
+            return -1;
+        }
+        packet.assign(m_received.begin(), m_received.begin() + size);
+        m_received.erase(m_received.begin(), m_received.begin() + size);
+        return static_cast<ssize_t>(size);
+    }
+
 private:
     int m_connected_socket = this->INVALID_SOCKET;
+    std::vector<uint8_t> m_received; /**< Bytes of packets that are not handed out yet */
+
+    size_t received_packet_size() const noexcept
+    {
+        // The size in words is in the last two bytes of the packet header
+        if (m_received.size() < sizeof(uint32_t)) {
+            return 0;
+        }
+        return ((size_t{ m_received[2] } << 8) | m_received[3]) * sizeof(uint32_t);
+    }
+
+    bool packet_available() const noexcept
+    {
+        const auto size = received_packet_size();
+        return size > 0 && m_received.size() >= size;
+    }
 
     void close_connection()
     {
+        m_received.clear();
         if (m_is_connected()) {
             ::close(m_connected_socket);
             m_connected_socket = this->INVALID_SOCKET;
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 7500e22..04ca96d 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -375,6 +375,11 @@ private:
 
     auto m_listener_func() -> void
     {
+{%     if cmd_socket == 'tcp' %}
+        auto message = std::vector<uint8_t>{};
+{%     elif cmd_socket == 'udp' %}
+        auto message = message_buffer{};
+{%     endif %}
         while (m_listening) {
 {%     if cmd_socket == 'nats' %}
             using namespace std::chrono_literals;
@@ -384,9 +389,8 @@ private:
             }
             const auto received = message->data();
 {%     else %}
-            auto message = message_buffer{};
 {%       if cmd_socket == 'tcp' %}
-            auto recv_length = m_cmd_socket.read_some(message.data(), message.size());
+            auto recv_length = m_cmd_socket.read_packet(message);
 {%       elif cmd_socket == 'udp' %}
             cmd_endpoint_type endpoint;
             auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
-- 
2.43.0


From 2b24ef78e125e907d8dd2009e0e5547e9cc90922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 22/47] fix: an acknowledgement is returned only for the
 command it answers

Late, duplicated or foreign acknowledgements were returned as acknowledgements of
the next command, and their sender became the target of later commands.
---
 include/vrtgen/nats/utility.hpp               |  23 ++-
 include/vrtgen/types/uuid.hpp                 |   5 +
 include/vrtgen/utility.hpp                    | 162 ++++++++++++------
 .../macros/controller/controller.jinja2       |   2 +
 4 files changed, 131 insertions(+), 61 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index b88d99c..4b2f890 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -23,6 +23,8 @@
 #include <chrono>
 #include <stdexcept>
 
+#include <vrtgen/utility.hpp>
+
 #include "client.hpp"
 
 namespace vrtgen {
@@ -35,21 +37,16 @@ auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT
         throw std::runtime_error(std::string("failed to send command packet: ") + natsStatus_GetText(res));
     }
     // Receive acks on unique reply subject
-    const auto recv_ack = [&client](auto& ack)
+    std::unique_ptr<vrtgen::nats::message> message;
+    const auto receive = [&client, &message](std::chrono::milliseconds timeout) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using namespace std::chrono_literals;
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (auto msg = client.next_inbox_msg(2s)) {
-            if (auto match_err = ack_t::match(msg->data())) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ msg->data() });
-        } else {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
+        message = client.next_inbox_msg(timeout);
+        if (message == nullptr) {
+            return {};
         }
+        return message->data();
     };
-    (recv_ack(acks), ...);
+    receive_acks(receive, packet, acks...);
 }
 
-} // end namespace vrtgen
\ No newline at end of file
+} // end namespace vrtgen
diff --git a/include/vrtgen/types/uuid.hpp b/include/vrtgen/types/uuid.hpp
index d40a0f9..34bb993 100644
--- a/include/vrtgen/types/uuid.hpp
+++ b/include/vrtgen/types/uuid.hpp
@@ -106,6 +106,11 @@ public:
         }
     }
 
+    /**
+     * @brief Compare UUIDs
+     */
+    bool operator==(const UUID&) const = default;
+
 private:
     std::string to_binstring(const std::string& value) const
     {
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 61b227a..4ac3e2b 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -21,12 +21,16 @@
 
 #include <string>
 #include <stdexcept>
+#include <algorithm>
 #include <array>
-#include <future>
+#include <cerrno>
+#include <chrono>
+#include <concepts>
 #include <sstream>
 #include <optional>
 #include <utility>
 #include <span>
+#include <vector>
 #include <vrtgen/socket.hpp>
 
 namespace vrtgen {
@@ -99,6 +103,98 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+/**
+ * @brief Determine whether an acknowledgement answers a command
+ */
+template <class AckT, class CtrlT>
+bool is_ack_of(AckT& ack, CtrlT& packet)
+{
+    auto same = ack.message_id() == packet.message_id();
+    if constexpr (requires { { ack.stream_id() == packet.stream_id() } -> std::convertible_to<bool>; }) {
+        same = same && ack.stream_id() == packet.stream_id();
+    }
+    if constexpr (requires { { ack.controllee_id() == packet.controllee_id() } -> std::convertible_to<bool>; }) {
+        same = same && ack.controllee_id() == packet.controllee_id();
+    }
+    if constexpr (requires { { ack.controller_id() == packet.controller_id() } -> std::convertible_to<bool>; }) {
+        same = same && ack.controller_id() == packet.controller_id();
+    }
+    return same;
+}
+
+/**
+ * @brief Take a received message as an acknowledgement of a command
+ * @param message Received message
+ * @param packet Command the acknowledgement has to answer
+ * @param ack Acknowledgement of the expected kind, replaced by the received one
+ * @return true if the message is the acknowledgement
+ */
+template <class CtrlT, class AckT>
+bool accept_ack(std::span<const uint8_t> message, CtrlT& packet, std::optional<AckT>& ack)
+{
+    auto received = unpack<AckT>(message);
+    if (!received || !is_ack_of(*received, packet) ||
+        received->cam().ack_v() != ack->cam().ack_v() ||
+        received->cam().ack_x() != ack->cam().ack_x()) {
+        return false;
+    }
+    ack = std::move(received);
+    return true;
+}
+
+/**
+ * @brief Receive the acknowledgements of a command. Everything else is discarded.
+ * @param receive Function that waits for one message no longer than the given time and returns
+ *                it, or an empty message
+ * @param packet Command that was sent
+ * @param acks The expected acknowledgements have a value of the expected kind
+ * @throw std::runtime_error An acknowledgement did not arrive in time
+ */
+template <class RecvT, class CtrlT, class ...AckT>
+void receive_acks(RecvT&& receive, CtrlT& packet, AckT&... acks)
+{
+    using namespace std::chrono;
+    constexpr auto ACK_TIMEOUT = seconds(2);
+    auto pending = std::vector<char>{ acks.has_value()... };
+    auto deadline = steady_clock::now() + ACK_TIMEOUT;
+    while (std::find(pending.begin(), pending.end(), true) != pending.end()) {
+        const auto now = steady_clock::now();
+        if (now >= deadline) {
+            throw std::runtime_error("timed out waiting for acknowledgement packet");
+        }
+        const std::span<const uint8_t> message = receive(std::chrono::ceil<milliseconds>(deadline - now));
+        if (message.empty()) {
+            continue;
+        }
+        [[maybe_unused]]
+        auto idx = std::size_t{};
+        const auto accept = [&](auto& ack)
+        {
+            auto& expected = pending[idx++];
+            if (!expected || !accept_ack(message, packet, ack)) {
+                return false;
+            }
+            expected = false;
+            return true;
+        };
+        if ((accept(acks) || ...)) {
+            deadline = steady_clock::now() + ACK_TIMEOUT;
+        }
+    }
+}
+
+/**
+ * @brief Determine the received message from the result of a receive call
+ * @throw std::runtime_error The receive call failed
+ */
+inline std::span<const uint8_t> received_message(const uint8_t* message, ssize_t length)
+{
+    if (length < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+        throw std::runtime_error(std::string("failed to receive acknowledgement packet: ") + strerror(errno));
+    }
+    return { message, static_cast<std::size_t>(length < 0 ? 0 : length) };
+}
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
@@ -108,26 +204,17 @@ void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
     if (sent != static_cast<ssize_t>(packed_data.size())) {
         throw std::runtime_error(std::string("failed to send command packet: ") + strerror(errno));
     }
-    const auto recv_ack = [&socket](auto& ack)
+    std::array<uint8_t, 65536> message;
+    const auto receive = [&socket, &message](std::chrono::milliseconds timeout) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        std::array<uint8_t, 65536> message{ 0 };
-        std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
-        });
-        auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
-        if (status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement");
+        if (!socket.wait_readable(timeout)) {
+            return {};
         }
-        auto reply_length = recv_from_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-        }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
+        typename SockT::endpoint_type endpoint;
+        auto length = socket.receive_from(message.data(), message.size(), endpoint);
+        return received_message(message.data(), length);
     };
-    (recv_ack(acks), ...);
+    receive_acks(receive, packet, acks...);
 }
 
 template <class SockT, class CtrlT, class ...AckT>
@@ -138,40 +225,19 @@ auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
     if (socket.write_all(packed_data.data(), packed_data.size()) < 0) {
         throw std::runtime_error(std::string("failed to send command packet: ") + strerror(errno));
     }
-    auto message = std::array<uint8_t, 65536>{ 0 };
-    auto reply_length = 0;
-    auto read_idx = std::size_t{};
-    const auto recv_ack = [&message, &socket, &reply_length, &read_idx](auto& ack)
+    std::vector<uint8_t> message;
+    const auto receive = [&socket, &message](std::chrono::milliseconds timeout) -> std::span<const uint8_t>
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (reply_length > 0) {
-            auto span = std::span<const uint8_t>{ message.data()+read_idx, static_cast<std::size_t>(reply_length) };
-            if (auto match_err = ack_t::match(span)) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ span });
-            reply_length -= ack->size();
-            read_idx += ack->size();
-            return;
-        }
-        auto read_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.read_some(message.data(), message.size());
-        });
-        using namespace std::chrono_literals;
-        if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
+        if (!socket.wait_readable(timeout)) {
+            return {};
         }
-        reply_length = read_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        auto length = socket.read_packet(message);
+        if (length == 0) {
+            throw std::runtime_error("connection closed while waiting for acknowledgement packet");
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
-        reply_length -= ack->size();
-        read_idx = ack->size();
+        return received_message(message.data(), length);
     };
-    (recv_ack(acks), ...);
+    receive_acks(receive, packet, acks...);
 }
 
 } // end namespace vrtgen
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index b28b60d..d250bb9 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -94,8 +94,10 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
     if (packet.cam().{{ req_t }}()) {
 {%   if req_t == 'req_v' %}
         ack_v = {{ packet.name }}AckVX{};
+        ack_v->ack_v(true);
 {%   elif req_t == 'req_x' %}
         ack_x = {{ packet.name }}AckVX{};
+        ack_x->ack_x(true);
 {%   elif req_t == 'req_s' %}
         ack_s = {{ packet.name }}AckS{};
 {%   endif %}
-- 
2.43.0


From 15e3554c585d8f6685aba6510733c3b305076ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 23/47] fix: receive loops do not spin on a failing or
 disconnected socket

---
 include/vrtgen/utility.hpp                           | 12 ++++++++++++
 .../backend/cpp/templates/controllee_base.hpp.jinja2 | 10 +++++++++-
 .../backend/cpp/templates/controller.hpp.jinja2      |  3 ++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 4ac3e2b..02b8055 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -30,6 +30,7 @@
 #include <optional>
 #include <utility>
 #include <span>
+#include <thread>
 #include <vector>
 #include <vrtgen/socket.hpp>
 
@@ -69,6 +70,17 @@ inline void unpack_field(T& field, std::span<uint8_t> data, std::size_t pos)
     field.unpack_from(data.data() + pos);
 }
 
+/**
+ * @brief Pause a receive loop after a receive call failed, unless it only timed out or was
+ *        interrupted. The failure may last, the loop shall not run at full speed meanwhile.
+ */
+inline void pause_after_failure()
+{
+    if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+        std::this_thread::sleep_for(std::chrono::milliseconds(100));
+    }
+}
+
 /**
  * @brief Unpack a received message if it is a complete packet of a class
  * @tparam PacketT Packet class
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 04ca96d..2d844e5 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -395,7 +395,15 @@ private:
             cmd_endpoint_type endpoint;
             auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
 {%       endif %}
-            if (recv_length <= 0) {
+{%       if cmd_socket == 'tcp' %}
+            if (recv_length == 0) {
+                // No connection any more
+                errno = ENOTCONN;
+                recv_length = -1;
+            }
+{%       endif %}
+            if (recv_length < 0) {
+                vrtgen::pause_after_failure();
                 continue;
             }
             const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index a3aa2fd..d0e2ab3 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -119,7 +119,8 @@ private:
         while(m_receiving) {
             data_ctxt_endpoint_type endpoint;
             auto recv_length = m_data_ctxt_recv_socket.receive_from(message.data(), message.size(), endpoint);
-            if (recv_length <= 0) {
+            if (recv_length < 0) {
+                vrtgen::pause_after_failure();
                 continue;
             }
             const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
-- 
2.43.0


From d0a37f4395af10762540c3b5176501de4b7da111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 24/47] fix: stopping a controller or controllee waits for its
 receive thread

Destroying a receiving controller terminated the process, destroying a listening
controllee could call its pure virtual handlers, and stopping from inside a
callback or starting again after it failed.
---
 .../cpp/templates/controllee.hpp.jinja2       |  7 +++++
 .../cpp/templates/controllee_base.hpp.jinja2  | 26 ++++++++++++++++---
 .../cpp/templates/controller.hpp.jinja2       | 11 ++++++++
 .../macros/controller/controller.jinja2       | 11 +++++++-
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..8c33368 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -122,7 +122,14 @@ public:
     /**
      * @brief Destructor
      */
+{% if ns.has_control %}
+    ~{{ class_name }}() override
+    {
+        vrt_stop();
+    }
+{% else %}
     ~{{ class_name }}() override = default;
+{% endif %}
 
 {% for packet in packets if packet.is_control %}
     {{ handle_packet_callback(packet) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 2d844e5..5cdaa1f 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -238,10 +238,7 @@ public:
     virtual ~{{ class_name }}()
     {
 {% if ns.has_control %}
-        m_listening = false;
-        if (m_recv_thread.joinable()) {
-            m_recv_thread.join();
-        }
+        vrt_stop();
 {% endif %}
     }
 {% if ns.has_datactxt %}
@@ -325,11 +322,32 @@ public:
     auto vrt_listen() -> void
     {
         if (!m_listening) {
+            if (m_recv_thread.joinable()) {
+                if (m_recv_thread.get_id() == std::this_thread::get_id()) {
+                    // Called from a handler, this thread goes on listening
+                    m_listening = true;
+                    return;
+                }
+                m_recv_thread.join();
+            }
             m_listening = true;
             m_recv_thread = std::thread(&{{ class_name }}::m_listener_func, this);
         }
     }
 
+    /**
+     * @brief Stop the listener thread. No handler is called afterwards, so that a derived class
+     *        has to call it in its destructor.
+     */
+    auto vrt_stop() -> void
+    {
+        m_listening = false;
+        // A handler can not wait for its own thread
+        if (m_recv_thread.joinable() && m_recv_thread.get_id() != std::this_thread::get_id()) {
+            m_recv_thread.join();
+        }
+    }
+
 {%   endif %}
 {%   if packet.cam.req_v.enabled %}
     virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index d0e2ab3..14bbb97 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -94,6 +94,17 @@ public:
      */
     {{ controller_name }}() = default;
 {% endif %}
+{% if ns.has_datactxt %}
+
+    /**
+     * @brief Destructor
+     *        Stops receiving, no listener is called afterwards.
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+{% endif %}
 
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index d250bb9..2235955 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -164,6 +164,14 @@ void send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 void enable_receive()
 {
     if (!m_receiving) {
+        if (m_recv_thread.joinable()) {
+            if (m_recv_thread.get_id() == std::this_thread::get_id()) {
+                // Called from a listener, this thread goes on receiving
+                m_receiving = true;
+                return;
+            }
+            m_recv_thread.join();
+        }
         m_receiving = true;
         m_recv_thread = std::thread(&{{ class_name }}::m_receiver_func, this);
     }
@@ -175,7 +183,8 @@ void enable_receive()
 void disable_receive()
 {
     m_receiving = false;
-    if (m_recv_thread.joinable()) {
+    // A listener can not wait for its own thread
+    if (m_recv_thread.joinable() && m_recv_thread.get_id() != std::this_thread::get_id()) {
         m_recv_thread.join();
     }
 }
-- 
2.43.0


From dcfe362118aa17acd1a29ea4d5437066a82b4605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 25/47] fix: NATS getters use the mutex of their queue and are
 released by stopping

The inbox getter waited with the other queue's mutex, timed getters ignored
stopping, and a failed synchronous subscription made every timeout zero.
---
 include/vrtgen/nats/client.hpp | 58 +++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..36c16de 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -60,8 +60,8 @@ public:
      */
     ~client()
     {
-        m_done = true;
         stop();
+        release_getters();
         if (m_sub != nullptr) {
             natsSubscription_Destroy(m_sub);
         }
@@ -208,10 +208,11 @@ public:
     {
         using namespace std::chrono_literals;
         std::unique_lock<std::mutex> lock(m_msg_mtx);
+        const auto waiting = waiting_getter{ m_msg_getters, m_msg_cv };
         if (timeout == BLOCKING) {
-            m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
+            m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || m_done; });
         } else {
-            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || m_done; });
         }
         if (!m_msg_queue.empty()) {
             auto retval = std::move(m_msg_queue.front());
@@ -268,11 +269,12 @@ public:
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
         using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
+        std::unique_lock<std::mutex> lock(m_inbox_msg_mtx);
+        const auto waiting = waiting_getter{ m_inbox_getters, m_inbox_msg_cv };
         if (timeout == BLOCKING) {
-            m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
+            m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || m_done; });
         } else {
-            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || m_done; });
         }
         if (!m_inbox_msg_queue.empty()) {
             auto retval = std::move(m_inbox_msg_queue.front());
@@ -283,22 +285,47 @@ public:
     }
 
 private:
+    /**
+     * Counts a getter while it uses the queue. The queue's mutex is locked when it is
+     * constructed and destroyed.
+     */
+    struct waiting_getter
+    {
+        std::size_t& count;
+        std::condition_variable& cv;
+
+        waiting_getter(std::size_t& getters, std::condition_variable& getters_cv) :
+            count(getters),
+            cv(getters_cv)
+        {
+            ++count;
+        }
+
+        ~waiting_getter()
+        {
+            --count;
+            cv.notify_all();
+        }
+    };
+
     natsConnection* m_connection{ nullptr };
     natsSubscription* m_sub{ nullptr };
     natsSubscription* m_reply_sub{ nullptr };
     // Sync
     bool m_is_sync{ false };
     std::atomic_bool m_running{ false };
-    bool m_done{ false };
+    std::atomic_bool m_done{ false };
     std::thread m_thread;
     // Subscription
     std::queue<message_ptr> m_msg_queue;
     std::mutex m_msg_mtx;
     std::condition_variable m_msg_cv;
+    std::size_t m_msg_getters{ 0 };
     // Reply subscription
     std::queue<message_ptr> m_inbox_msg_queue;
     std::mutex m_inbox_msg_mtx;
     std::condition_variable m_inbox_msg_cv;
+    std::size_t m_inbox_getters{ 0 };
     const std::size_t INBOX_LEN{ 32 };
     inline static const std::string DIGITS{
         "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
@@ -323,12 +350,27 @@ private:
     auto stop() -> void
     {
         m_running = false;
-        m_msg_cv.notify_all();
         if (m_thread.joinable()) {
             m_thread.join();
         }
     }
 
+    /**
+     * Wake the getters and wait until they have left
+     */
+    auto release_getters() -> void
+    {
+        {
+            auto lock = std::unique_lock<std::mutex>{ m_msg_mtx };
+            m_done = true;
+            m_msg_cv.notify_all();
+            m_msg_cv.wait(lock, [this]{ return m_msg_getters == 0; });
+        }
+        auto lock = std::unique_lock<std::mutex>{ m_inbox_msg_mtx };
+        m_inbox_msg_cv.notify_all();
+        m_inbox_msg_cv.wait(lock, [this]{ return m_inbox_getters == 0; });
+    }
+
     auto thread_func() -> void
     {
         while (m_is_sync && m_running) {
-- 
2.43.0


From 225e3b8e04cc07178a0c63a7641599585b8ed0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 26/47] fix: NATS subscriptions are released once, after their
 last callback

The reply subscription and replaced connections and subscriptions were leaked,
and a callback in flight used the client after its destruction.
---
 include/vrtgen/nats/client.hpp | 93 +++++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 8 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 36c16de..03f26fb 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -62,9 +62,8 @@ public:
     {
         stop();
         release_getters();
-        if (m_sub != nullptr) {
-            natsSubscription_Destroy(m_sub);
-        }
+        close_subscription(m_sub, m_delivering);
+        close_subscription(m_reply_sub, m_reply_delivering);
         if (m_connection != nullptr) {
             natsConnection_Destroy(m_connection);
         }
@@ -85,7 +84,20 @@ public:
      */
     auto connect(const std::string& url) -> natsStatus
     {
-        return natsConnection_ConnectTo(&m_connection, url.c_str());
+        natsConnection* connection{ nullptr };
+        auto res = natsConnection_ConnectTo(&connection, url.c_str());
+        if (res != NATS_OK) {
+            return res;
+        }
+        // An earlier connection is replaced
+        stop();
+        close_subscription(m_sub, m_delivering);
+        close_subscription(m_reply_sub, m_reply_delivering);
+        if (m_connection != nullptr) {
+            natsConnection_Destroy(m_connection);
+        }
+        m_connection = connection;
+        return res;
     }
 
     /**
@@ -127,6 +139,8 @@ public:
         if (subject.empty()) {
             return NATS_INVALID_SUBJECT;
         }
+        stop();
+        close_subscription(m_sub, m_delivering);
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -142,6 +156,9 @@ public:
                 &client::on_msg,
                 this
             );
+            if (res == NATS_OK) {
+                res = await_completion(m_sub, m_delivering);
+            }
         }
         return res;
     }
@@ -161,6 +178,8 @@ public:
         if (queue_group.empty()) {
             return NATS_INVALID_QUEUE_NAME;
         }
+        stop();
+        close_subscription(m_sub, m_delivering);
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -181,6 +200,9 @@ public:
                 &client::on_msg,
                 this
             );
+            if (res == NATS_OK) {
+                res = await_completion(m_sub, m_delivering);
+            }
         }
         return res;
     }
@@ -242,9 +264,7 @@ public:
      */
     auto new_inbox() -> natsStatus
     {
-        if (m_reply_sub != nullptr) {
-            natsSubscription_Destroy(m_reply_sub);
-        }
+        close_subscription(m_reply_sub, m_reply_delivering);
 
         // Generate a unique subject
         auto inbox_str = std::string{ "INBOX_" };
@@ -253,13 +273,17 @@ public:
             inbox_str += DIGITS.at(random_index);
         }
 
-        return natsConnection_Subscribe(
+        auto res = natsConnection_Subscribe(
             &m_reply_sub,
             m_connection,
             inbox_str.c_str(),
             &client::on_reply_msg,
             this
         );
+        if (res == NATS_OK) {
+            res = await_completion(m_reply_sub, m_reply_delivering);
+        }
+        return res;
     }
 
     /**
@@ -339,6 +363,59 @@ private:
     };
     inline static std::uniform_int_distribution m_random{ std::size_t{ 0 }, DIGITS.size()-1 };
     
+    /**
+     * State of the message delivery of an asynchronous subscription
+     */
+    struct delivery
+    {
+        std::mutex mtx;
+        std::condition_variable cv;
+        bool active{ false };
+    };
+
+    delivery m_delivering;
+    delivery m_reply_delivering;
+
+    static
+    auto on_complete(void* ctx) -> void
+    {
+        auto state = static_cast<delivery*>(ctx);
+        const auto lock = std::lock_guard<std::mutex>{ state->mtx };
+        state->active = false;
+        state->cv.notify_all();
+    }
+
+    /**
+     * Ask to be told when the last callback of an asynchronous subscription has returned
+     */
+    static
+    auto await_completion(natsSubscription*& sub, delivery& state) -> natsStatus
+    {
+        state.active = true;
+        auto res = natsSubscription_SetOnCompleteCB(sub, &client::on_complete, &state);
+        if (res != NATS_OK) {
+            state.active = false;
+            natsSubscription_Destroy(sub);
+            sub = nullptr;
+        }
+        return res;
+    }
+
+    /**
+     * Destroy a subscription and wait until none of its callbacks runs any more
+     */
+    static
+    auto close_subscription(natsSubscription*& sub, delivery& state) -> void
+    {
+        if (sub == nullptr) {
+            return;
+        }
+        natsSubscription_Destroy(sub);
+        sub = nullptr;
+        auto lock = std::unique_lock<std::mutex>{ state.mtx };
+        state.cv.wait(lock, [&state]{ return !state.active; });
+    }
+
     auto start() -> void
     {
         if (!m_running) {
-- 
2.43.0


From b6ee9851ebe53043790e751a57f5c0d0a45dda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 27/47] fix: NATS url is not filled up with NUL characters

---
 include/vrtgen/nats/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 03f26fb..8634d71 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -110,7 +110,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
-- 
2.43.0


From c7fe9b92784e54f0bcc8c8b29968908e79fa996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 28/47] fix: synchronous NATS subscription does not spin when
 the connection is closed

---
 include/vrtgen/nats/client.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 8634d71..6443cc6 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -456,6 +456,9 @@ private:
                 auto res = natsSubscription_NextMsg(&msg, m_sub, 1000);
                 if (res == NATS_OK && msg != nullptr) {
                     add_msg(std::make_unique<message>(msg));
+                } else if (res != NATS_TIMEOUT) {
+                    // The failure may last, do not run at full speed meanwhile
+                    std::this_thread::sleep_for(std::chrono::milliseconds(100));
                 }
             }
         }
-- 
2.43.0


From 2c1f961b7a1c1092d3d33bf32c586d9590370273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 29/47] fix: a NATS message can not be copied, the copy was
 destroyed again

---
 include/vrtgen/nats/message.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vrtgen/nats/message.hpp b/include/vrtgen/nats/message.hpp
index c780670..d664630 100644
--- a/include/vrtgen/nats/message.hpp
+++ b/include/vrtgen/nats/message.hpp
@@ -50,6 +50,10 @@ public:
         }
     }
 
+    // The underlying message has one owner
+    message(const message&) = delete;
+    message& operator=(const message&) = delete;
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 0bbc79d58f1301bf44174457933ecdb197c74f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 30/47] fix: inbox names of NATS clients in several threads are
 generated under a lock

---
 include/vrtgen/nats/client.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 6443cc6..e812bc3 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -268,9 +268,12 @@ public:
 
         // Generate a unique subject
         auto inbox_str = std::string{ "INBOX_" };
-        for (auto i=0u; i<INBOX_LEN; ++i) {
-            auto random_index = m_random(m_urbg);
-            inbox_str += DIGITS.at(random_index);
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_urbg_mtx };
+            for (auto i=0u; i<INBOX_LEN; ++i) {
+                auto random_index = m_random(m_urbg);
+                inbox_str += DIGITS.at(random_index);
+            }
         }
 
         auto res = natsConnection_Subscribe(
@@ -361,6 +364,7 @@ private:
                 ).count()
         )
     };
+    inline static std::mutex m_urbg_mtx; // the generator is shared by all clients
     inline static std::uniform_int_distribution m_random{ std::size_t{ 0 }, DIGITS.size()-1 };
     
     /**
-- 
2.43.0


From 606f784e57711a116c2b3ed332ac82fc580ca4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:14 +0000
Subject: [PATCH 31/47] fix: a TCP peer that does not read does not block a
 write for ever

---
 include/vrtgen/socket/tcp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 6ca15cf..f0db666 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -98,6 +98,7 @@ public:
         }
         close_connection();
         m_connected_socket = res;
+        limit_send_time(m_connected_socket);
         this->m_dst = endpoint;
         return true;
     }
@@ -113,6 +114,7 @@ public:
             return false;
         }
         m_received.clear();
+        limit_send_time(this->m_socket);
         return true;
     }
 
@@ -239,6 +241,15 @@ private:
         return size > 0 && m_received.size() >= size;
     }
 
+    /**
+     * A peer that does not read can not block a write for ever
+     */
+    static void limit_send_time(int handle)
+    {
+        struct timeval tv{ base_type::TIMEOUT, 0 };
+        setsockopt(handle, SOL_SOCKET, SO_SNDTIMEO, (const char*)&tv, sizeof(tv));
+    }
+
     void close_connection()
     {
         m_received.clear();
-- 
2.43.0


From 4ee7bd9f76c13b6d1f5dce70c72c8d628206363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 32/47] fix: a command that requests only the status
 acknowledgement is answered

---
 .../cpp/templates/controllee_base.hpp.jinja2     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 5cdaa1f..cc1c184 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -455,10 +455,12 @@ private:
                 }
 {%   endif %}
 {%   if packet.cam.req_x.enabled %}
-                if (packet.cam().req_x()) {
 {%     if packet.cam.req_s.enabled %}
+                // Reporting the status executes the command, as it does without an execution ack
+                if (packet.cam().req_x() || packet.cam().req_s()) {
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
 {%     else %}
+                if (packet.cam().req_x()) {
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
@@ -471,15 +473,17 @@ private:
                     ack_x.controller_id(packet.controller_id());
 {%     endif %}
                     auto packed_data = ack_x.data();
+                    if (packet.cam().req_x()) {
 {%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
+                        if (auto reply = message->reply_subject(); !reply.empty()) {
+                            m_client.publish(reply, packed_data);
+                        }
 {%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
+                        m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                    m_cmd_socket.write_all(packed_data.data(), packed_data.size());
+                        m_cmd_socket.write_all(packed_data.data(), packed_data.size());
 {%     endif %}
+                    }
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
                         ack_s.stream_id(packet.stream_id());
-- 
2.43.0


From c84b80f2f5290a3ec057e53b5acafd6df94f7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 33/47] fix: a generation that failed does not exit with status
 zero

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 src/vrtgen/main.py                  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..ff26cf2 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -499,7 +499,7 @@ class CppGenerator(Generator):
                 logging.info('Duplicate packet name detected: %s', name)
                 if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:
                     logging.error('Attempt to add duplicate packet type %s to Information Class %s', name, packet.class_id.information_code.value)
-                    raise SystemExit()
+                    raise SystemExit(1)
                 else: # Set flag and do not add packet
                     existing_packet.supports_multiple_information_codes = True
                     return
diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 9ff3fa3..8e2921b 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -105,7 +105,7 @@ def main():
     try:
         generator = generators[args.generator]()
     except KeyError:
-        raise SystemExit("invalid backend '"+args.backend+"'")
+        raise SystemExit("invalid backend '"+str(args.generator)+"'")
 
     if args.project:
         if hasattr(generator, 'project'):
@@ -118,6 +118,7 @@ def main():
         if value is not None:
             setattr(generator, attr, value)
 
+    failed = False
     for filename in args.filename:
         logging.debug('Parsing %s', filename)
         generator.start_file(filename)
@@ -129,7 +130,10 @@ def main():
                     generator.generate(name, value)
                 except RuntimeError as exc:
                     logging.error('Generator error: %s', exc)
+                    failed = True
         generator.end_file()
+    if failed:
+        raise SystemExit(1)
 
 # Support running via "python -m vrtgen.main", used for C++ build
 if __name__ == '__main__':
-- 
2.43.0


From 0ebf4080a249989a1bc46dc56ed6a9f89f8052bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 34/47] fix: output files of the generator are replaced, not
 rewritten in place

---
 src/vrtgen/backend/cpp/generator.py | 67 +++++++++++++++++++----------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index ff26cf2..70f6192 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -15,7 +15,7 @@
 # You should have received a copy of the GNU Lesser General Public License
 # along with this program.  If not, see http://www.gnu.org/licenses/.
 
-import os, shutil, jinja2
+import contextlib, os, shutil, jinja2
 from vrtgen.backend.generator import Generator, GeneratorOption
 from vrtgen.parser.model.information import InformationClass
 from vrtgen.parser.model.types import *
@@ -27,6 +27,39 @@ from .jinja import *
 import copy
 import logging
 
+@contextlib.contextmanager
+def replacing(path):
+    """
+    Yields the name of a temporary file that takes the place of path once it is
+    complete. If anything fails until then, path is left as it was.
+    """
+    temp = os.path.join(os.path.dirname(path), '.{}.{}.tmp'.format(os.path.basename(path), os.getpid()))
+    try:
+        yield temp
+        os.replace(temp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp)
+        raise
+
+def write_file(path, text):
+    """
+    Writes an output file.
+    """
+    with replacing(path) as temp:
+        with open(temp, 'w') as fp:
+            fp.write(text)
+
+def copy_file(src, directory):
+    """
+    Copies a file with its metadata to a directory.
+    """
+    path = os.path.join(directory, os.path.basename(src))
+    if os.path.exists(path) and os.path.samefile(src, path):
+        return
+    with replacing(path) as temp:
+        shutil.copy2(src, temp)
+
 def name_to_identifier(name):
     """
     Returns a valid C++ identifier for a string name.
@@ -421,27 +454,22 @@ class CppGenerator(Generator):
 
             self.yamls.append(self.filename)
             for yaml in self.yamls:
-                shutil.copy2(yaml, self.yaml_dir)
+                copy_file(yaml, self.yaml_dir)
 
             template = self.env.get_template('main.cpp.jinja2')
-            with open(os.path.join(f'{self.src_dir}/bin', 'main.cpp'), 'w') as fp:
-                fp.write(template.render(main_context))
+            write_file(os.path.join(f'{self.src_dir}/bin', 'main.cpp'), template.render(main_context))
 
             template = self.env.get_template('CMakeLists.txt.jinja2')
-            with open(os.path.join(self.output_dir, 'CMakeLists.txt'), 'w') as fp:
-                fp.write(template.render(main_context))
+            write_file(os.path.join(self.output_dir, 'CMakeLists.txt'), template.render(main_context))
 
             template = self.env.get_template('CMakeLists.src.jinja2')
-            with open(os.path.join(self.src_dir, 'CMakeLists.txt'), 'w') as fp:
-                fp.write(template.render(main_context))
+            write_file(os.path.join(self.src_dir, 'CMakeLists.txt'), template.render(main_context))
 
             template = self.env.get_template('CMakeLists.src.bin.jinja2')
-            with open(os.path.join(f'{self.src_dir}/bin', 'CMakeLists.txt'), 'w') as fp:
-                fp.write(template.render(main_context))
+            write_file(os.path.join(f'{self.src_dir}/bin', 'CMakeLists.txt'), template.render(main_context))
 
             template = self.env.get_template('CMakeLists.packets.jinja2')
-            with open(os.path.join(f'{self.src_dir}/packets', 'CMakeLists.txt'), 'w') as fp:
-                fp.write(template.render(main_context))
+            write_file(os.path.join(f'{self.src_dir}/packets', 'CMakeLists.txt'), template.render(main_context))
 
         for packet in self.packets:
             context = {
@@ -458,15 +486,13 @@ class CppGenerator(Generator):
             file_path = self.include_dir
             if self.project:
                 file_path += '/packets'
-            with open(os.path.join(file_path, header_file), 'w') as fp:
-                fp.write(template.render(context))
+            write_file(os.path.join(file_path, header_file), template.render(context))
 
             template = self.env.get_template('packet.cpp.jinja2')
             file_path = self.src_dir
             if self.project:
                 file_path += '/packets'
-            with open(os.path.join(file_path, implfile), 'w') as fp:
-                fp.write(template.render(context))
+            write_file(os.path.join(file_path, implfile), template.render(context))
 
         if self.information_class:
             context['packets'] = self.packets
@@ -476,20 +502,17 @@ class CppGenerator(Generator):
             context['cmd_socket'] = self.cmd_socket
             template = self.env.get_template('controller.hpp.jinja2')
             self.controller_file = '{}.{}'.format(context['controller_name'], self.header_ext)
-            with open(os.path.join(self.include_dir, self.controller_file), 'w') as fp:
-                fp.write(template.render(context))
+            write_file(os.path.join(self.include_dir, self.controller_file), template.render(context))
 
             context['controllee_base_name'] = 'Controllee_base' # self.information_class[0] + 'Controllee_base'
             template = self.env.get_template('controllee_base.hpp.jinja2')
             self.controllee_base_file = '{}.{}'.format(context['controllee_base_name'], self.header_ext)
-            with open(os.path.join(self.include_dir, self.controllee_base_file), 'w') as fp:
-                fp.write(template.render(context))
+            write_file(os.path.join(self.include_dir, self.controllee_base_file), template.render(context))
 
             context['controllee_name'] = 'Controllee' # self.information_class[0] + 'Controllee'
             template = self.env.get_template('controllee.hpp.jinja2')
             self.controllee_file = '{}.{}'.format(context['controllee_name'], self.header_ext)
-            with open(os.path.join(self.include_dir, self.controllee_file), 'w') as fp:
-                fp.write(template.render(context))
+            write_file(os.path.join(self.include_dir, self.controllee_file), template.render(context))
 
 
     def generate_packet(self, name, packet):
-- 
2.43.0


From 972db101ff23ab31d3bfd036e9f6bc3d145e7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 35/47] fix: generate code for every file on the command line

---
 src/vrtgen/main.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 8e2921b..88b6a72 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -57,13 +57,6 @@ def main():
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
     sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR')
-    arg_parser.add_argument(
-        'filename',
-        nargs='+',
-        help='VRT YAML definition file',
-        metavar='FILENAME'
-    )
-
     def _add_backend_parser(name, version, generator):
         backend_parser = sub_parser.add_parser(
             name,
@@ -74,7 +67,7 @@ def main():
         )
         backend_parser.add_argument(
             'filename',
-            nargs='*',
+            nargs='+',
             help='VRT YAML definition file',
             metavar='FILENAME'
         )
-- 
2.43.0


From a10ea7fe17f7d913e0af406effd86002d93d4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 36/47] fix: options given before the generator's name are not
 forgotten

---
 src/vrtgen/main.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 88b6a72..add1d81 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -34,25 +34,27 @@ def main():
     """
     logging.basicConfig()
 
-    common_parser = argparse.ArgumentParser(add_help=False)
-    common_parser.add_argument(
-        '-v',
-        '--verbose',
-        action='store_true',
-        default=False,
-        help='display debug messages'
-    )
-    common_parser.add_argument(
-        '-p',
-        '--project',
-        action='store_true',
-        default=False,
-        help='create project with directory structure'
-    )
+    def _common_parser(default):
+        common_parser = argparse.ArgumentParser(add_help=False)
+        common_parser.add_argument(
+            '-v',
+            '--verbose',
+            action='store_true',
+            default=default,
+            help='display debug messages'
+        )
+        common_parser.add_argument(
+            '-p',
+            '--project',
+            action='store_true',
+            default=default,
+            help='create project with directory structure'
+        )
+        return common_parser
 
     arg_parser = argparse.ArgumentParser(
         description='Generate VITA 49.2 packet classes.',
-        parents=[common_parser],
+        parents=[_common_parser(False)],
         epilog="Run '%(prog)s GENERATOR --help' for more information on a generator.",
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
@@ -62,7 +64,8 @@ def main():
             name,
             help=generator.__doc__,
             description=generator.__doc__,
-            parents=[common_parser],
+            # an option that is not given here keeps the value given before the generator's name
+            parents=[_common_parser(argparse.SUPPRESS)],
             usage='%(prog)s [OPTIONS] FILENAME [FILENAME ...]'
         )
         backend_parser.add_argument(
-- 
2.43.0


From cef1baf7cdebcf6e23f7994dda5d4a91c4e9daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 37/47] fix: definition files and generated code are UTF-8 in
 every locale

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 src/vrtgen/parser/__init__.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 70f6192..24fef09 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -47,7 +47,7 @@ def write_file(path, text):
     Writes an output file.
     """
     with replacing(path) as temp:
-        with open(temp, 'w') as fp:
+        with open(temp, 'w', encoding='utf-8') as fp:
             fp.write(text)
 
 def copy_file(src, directory):
diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 2aa83d4..afe9ff6 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -29,7 +29,7 @@ def parse_file(filename, loader):
     """
     Parses VITA 49 class definitions from a YAML file.
     """
-    with open(filename, 'r') as file:
+    with open(filename, 'r', encoding='utf-8') as file:
         yield from parse_stream(file, loader)
 
 def parse_stream(stream, loader):
-- 
2.43.0


From 7c7f36b20b702c2025e53370e5c1697f4536b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:33 +0000
Subject: [PATCH 38/47] fix: listeners and handlers may call back while their
 thread is being started

A callback that stopped or restarted its own reception read the thread object
while the starting thread was still assigning it; restarting in that moment
ended the process.
---
 .../cpp/templates/controllee_base.hpp.jinja2     | 16 ++++++++++------
 .../backend/cpp/templates/controller.hpp.jinja2  |  2 ++
 .../macros/controller/controller.jinja2          | 14 ++++++++------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index cc1c184..570a3ee 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -322,12 +322,12 @@ public:
     auto vrt_listen() -> void
     {
         if (!m_listening) {
+            if (m_listener_id == std::this_thread::get_id()) {
+                // Called from a handler, this thread goes on listening
+                m_listening = true;
+                return;
+            }
             if (m_recv_thread.joinable()) {
-                if (m_recv_thread.get_id() == std::this_thread::get_id()) {
-                    // Called from a handler, this thread goes on listening
-                    m_listening = true;
-                    return;
-                }
                 m_recv_thread.join();
             }
             m_listening = true;
@@ -343,7 +343,7 @@ public:
     {
         m_listening = false;
         // A handler can not wait for its own thread
-        if (m_recv_thread.joinable() && m_recv_thread.get_id() != std::this_thread::get_id()) {
+        if (m_listener_id != std::this_thread::get_id() && m_recv_thread.joinable()) {
             m_recv_thread.join();
         }
     }
@@ -386,6 +386,8 @@ protected:
 {% if ns.has_control %}
 private:
     std::thread m_recv_thread;
+    // Set by the listener thread itself, it may run before m_recv_thread is assigned
+    std::atomic<std::thread::id> m_listener_id{};
     std::atomic_bool m_listening{ false };
 {% endif %}
 {% for packet in packets if packet.is_control %}
@@ -393,6 +395,7 @@ private:
 
     auto m_listener_func() -> void
     {
+        m_listener_id = std::this_thread::get_id();
 {%     if cmd_socket == 'tcp' %}
         auto message = std::vector<uint8_t>{};
 {%     elif cmd_socket == 'udp' %}
@@ -534,6 +537,7 @@ private:
             }
 {%   if loop.last %}
         }
+        m_listener_id = std::thread::id{};
     }
 {%   endif %}
 {% endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 14bbb97..e39440a 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -126,6 +126,7 @@ private:
 {%  if loop.first %}
     void m_receiver_func()
     {
+        m_receiver_id = std::this_thread::get_id();
         message_buffer message;
         while(m_receiving) {
             data_ctxt_endpoint_type endpoint;
@@ -144,6 +145,7 @@ private:
             }
 {%   if loop.last %}
         }
+        m_receiver_id = std::thread::id{};
     }
 
 {%   endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index 2235955..2d84e00 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -164,12 +164,12 @@ void send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 void enable_receive()
 {
     if (!m_receiving) {
+        if (m_receiver_id == std::this_thread::get_id()) {
+            // Called from a listener, this thread goes on receiving
+            m_receiving = true;
+            return;
+        }
         if (m_recv_thread.joinable()) {
-            if (m_recv_thread.get_id() == std::this_thread::get_id()) {
-                // Called from a listener, this thread goes on receiving
-                m_receiving = true;
-                return;
-            }
             m_recv_thread.join();
         }
         m_receiving = true;
@@ -184,7 +184,7 @@ void disable_receive()
 {
     m_receiving = false;
     // A listener can not wait for its own thread
-    if (m_recv_thread.joinable() && m_recv_thread.get_id() != std::this_thread::get_id()) {
+    if (m_receiver_id != std::this_thread::get_id() && m_recv_thread.joinable()) {
         m_recv_thread.join();
     }
 }
@@ -215,6 +215,8 @@ uint32_t m_message_id{ 1 };
 data_ctxt_socket_type m_data_ctxt_recv_socket;
 data_ctxt_socket_type m_data_ctxt_send_socket;
 std::thread m_recv_thread;
+// Set by the receive thread itself, it may run before m_recv_thread is assigned
+std::atomic<std::thread::id> m_receiver_id{};
 std::atomic_bool m_receiving{ false };
 {%   endif %}
 std::function<void({{ packet.name }}&)> m_{{ packet.name | to_snake }}_listener;
-- 
2.43.0


From 0eadb9235a99e11a85fd36f35cc367141a69c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:33 +0000
Subject: [PATCH 39/47] fix: reception can be enabled again after its thread
 could not be started

---
 .../backend/cpp/templates/controllee_base.hpp.jinja2       | 7 ++++++-
 .../cpp/templates/macros/controller/controller.jinja2      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 570a3ee..c28b7d8 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -331,7 +331,12 @@ public:
                 m_recv_thread.join();
             }
             m_listening = true;
-            m_recv_thread = std::thread(&{{ class_name }}::m_listener_func, this);
+            try {
+                m_recv_thread = std::thread(&{{ class_name }}::m_listener_func, this);
+            } catch (...) {
+                m_listening = false;
+                throw;
+            }
         }
     }
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index 2d84e00..a4d7d55 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -173,7 +173,12 @@ void enable_receive()
             m_recv_thread.join();
         }
         m_receiving = true;
-        m_recv_thread = std::thread(&{{ class_name }}::m_receiver_func, this);
+        try {
+            m_recv_thread = std::thread(&{{ class_name }}::m_receiver_func, this);
+        } catch (...) {
+            m_receiving = false;
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 140e5b9eda095c156ba6ce1ca748ef51ec8a0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 40/47] fix: attributes (CIF7) travel with every field they
 belong to

Attributes of CIF1 and CIF2 fields had no position, those of optional fields were never inserted, removed or unpacked,
8 and 16 bit scalars were not padded to words, enumerations and structures of variable length did not compile, and
Probability and Belief were stored as the type of the field.
---
 include/vrtgen/packing/cif7.hpp               |  68 +++++++++
 .../templates/macros/function_defs/cif.jinja2 | 132 ++++++++++++++++--
 .../macros/function_defs/constructors.jinja2  |  53 +++++--
 .../templates/macros/types/user_class.jinja2  |  76 ++++++----
 4 files changed, 277 insertions(+), 52 deletions(-)

diff --git a/include/vrtgen/packing/cif7.hpp b/include/vrtgen/packing/cif7.hpp
index a3f5d21..a0270b5 100644
--- a/include/vrtgen/packing/cif7.hpp
+++ b/include/vrtgen/packing/cif7.hpp
@@ -20,9 +20,13 @@
 #pragma once
 
 #include <concepts>
+#include <cstdint>
+#include <cstring>
+#include <span>
 #include <type_traits>
 
 #include <vrtgen/types.hpp>
+#include <vrtgen/utility.hpp>
 #include "indicator_fields.hpp"
 
 namespace vrtgen::packing {
@@ -32,8 +36,72 @@ namespace cif7 {
 template <typename T, typename V, std::size_t N, std::size_t R>
 concept is_scalar =
     (std::is_integral_v<V> && std::same_as<T,V>) ||
+    (std::is_enum_v<V> && std::same_as<T,V>) ||
     (std::is_floating_point_v<V> && (N>0) && (N>R));
 
+/**
+ * @brief Unused bytes in front of an attribute that is narrower than a word
+ * @tparam T Attribute type
+ */
+template <typename T>
+inline constexpr std::size_t reserved_bytes = (std::is_class_v<T> || sizeof(T) >= sizeof(uint32_t)) ? 0 : sizeof(uint32_t) - sizeof(T);
+
+/**
+ * @brief Number of bytes an attribute takes
+ */
+template <typename T>
+auto size(const T& value) -> std::size_t
+{
+    if constexpr (std::is_class_v<T>) {
+        return value.size();
+    } else {
+        return reserved_bytes<T> + sizeof(T);
+    }
+}
+
+/**
+ * @brief Number of bytes an attribute takes that is stored in a buffer
+ * @tparam T Attribute type
+ */
+template <typename T>
+auto stored_size(const uint8_t* buffer_ptr) -> std::size_t
+{
+    if constexpr (requires { T::packed_size(buffer_ptr); }) {
+        return T::packed_size(buffer_ptr);
+    } else {
+        return size(T{});
+    }
+}
+
+/**
+ * @brief Pack an attribute as bytes into the buffer
+ */
+template <typename T>
+auto pack_into(T& value, uint8_t* buffer_ptr) -> void
+{
+    if constexpr (std::is_class_v<T>) {
+        value.pack_into(buffer_ptr);
+    } else {
+        std::memset(buffer_ptr, 0, reserved_bytes<T>);
+        std::memcpy(buffer_ptr + reserved_bytes<T>, &value, sizeof(T));
+    }
+}
+
+/**
+ * @brief Unpack an attribute from the bytes of a packet
+ * @throw std::runtime_error The packet ends before the end of the attribute
+ */
+template <typename T>
+auto unpack_from(T& value, std::span<uint8_t> data, std::size_t pos) -> void
+{
+    if constexpr (std::is_class_v<T>) {
+        unpack_field(value, data, pos);
+    } else {
+        validate(pos <= data.size() && size(value) <= data.size() - pos, "packet ends before the end of a field");
+        std::memcpy(&value, data.data() + pos + reserved_bytes<T>, sizeof(T));
+    }
+}
+
 } // end namespace cif7
 
 /**
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 7e28d9c..70b92b8 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -35,6 +35,74 @@
 }
 {% endmacro %}
 
+{%- macro insert_attributes(field, type_helper) %}
+{
+    // The attributes follow the field
+    if (!m_{{ field.name }}_attributes.has_value()) {
+        m_{{ field.name }}_attributes.emplace();
+    }
+    auto attributes_pos{ m_positions.at("{{ field.name }}") };
+{%   if type_helper.is_scalar(field) %}
+{%     if field.type_.reserved_bits > 0 %}
+    attributes_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
+{%     endif %}
+    attributes_pos += sizeof({{ type_helper.member_type(field) }});
+{%   else %}
+    attributes_pos += m_{{ field.name }}->size();
+{%   endif %}
+    m_data.insert(m_data.begin() + attributes_pos, m_{{ field.name }}_attributes->size(), 0);
+    m_{{ field.name }}_attributes->pack_into(m_data.data() + attributes_pos);
+}
+{% endmacro %}
+
+{%- macro erase_attributes(field) %}
+{
+    const auto attributes_pos{ m_positions.at("{{ field.name }}_attributes") };
+    const auto attributes_size{ decltype(m_{{ field.name }}_attributes)::value_type::stored_size(m_data.data() + attributes_pos) };
+    m_data.erase(m_data.begin() + attributes_pos, m_data.begin() + attributes_pos + attributes_size);
+    m_{{ field.name }}_attributes.reset();
+}
+{% endmacro %}
+
+{%- macro sync_attributes(cif, field, type_helper) %}
+{%   if field.is_optional %}
+{%     if cif.is_optional %}
+if (m_{{ cif.name }}.has_value() && m_{{ cif.name }}->{{ field.name }}()) {
+{%     else %}
+if (m_{{ cif.name }}.{{ field.name }}()) {
+{%     endif %}
+    if (!m_{{ field.name }}_attributes.has_value()) {
+        m_{{ field.name }}_attributes.emplace();
+    }
+{%     if type_helper.is_variable_length(field) %}
+    {{ resize_attributes(field) | indent(4) | trim }}
+{%     endif %}
+    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+}
+{%   else %}
+{%     if type_helper.is_variable_length(field) %}
+{{ resize_attributes(field) | trim }}
+{%     endif %}
+m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+{%   endif %}
+{% endmacro %}
+
+{%- macro resize_attributes(field) %}
+{
+    // The attributes may need more or less room than they did before
+    const auto attributes_pos{ m_positions.at("{{ field.name }}_attributes") };
+    const auto old_size{ decltype(m_{{ field.name }}_attributes){{ '::value_type' if field.is_optional }}::stored_size(m_data.data() + attributes_pos) };
+    const auto new_size{ m_{{ field.name }}_attributes{{ '->' if field.is_optional else '.' }}size() };
+    if (old_size != new_size) {
+        m_data.erase(m_data.begin() + attributes_pos, m_data.begin() + attributes_pos + old_size);
+        m_data.insert(m_data.begin() + attributes_pos, new_size, 0);
+        m_{{ field.name }}_attributes{{ '->' if field.is_optional else '.' }}pack_into(m_data.data() + attributes_pos);
+        update_positions();
+        update_packet_size();
+    }
+}
+{% endmacro %}
+
 {%- macro function_defs(packet_name, cif, type_helper, cif7=none) %}
 {% for field in cif.fields if field.enabled %}
 {% if type_helper.is_scalar(field) %}
@@ -131,6 +199,9 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%     endif %}
 {%     if type_helper.is_variable_length(field) %}
         m_{{ field.name }}->pack_into(m_data.data() + pos);
+{%     endif %}
+{%     if cif7.enabled %}
+        {{ insert_attributes(field, type_helper) | indent(8) | trim }}
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
@@ -165,6 +236,9 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
+{%   if cif7.enabled and not field.indicator_only %}
+        {{ erase_attributes(field) | indent(8) | trim }}
+{%   endif %}
         const auto pos{ m_positions.at("{{ field.name }}") };
 {%   if type_helper.is_scalar(field) %}
 {%     if field.type_.reserved_bits > 0 %}
@@ -283,6 +357,9 @@ if (m_{{ field.name }}.has_value()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
 {%       if type_helper.is_variable_length(field) %}
         m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(field, type_helper) | indent(8) | trim }}
 {%       endif %}
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
@@ -303,15 +380,6 @@ if (m_{{ field.name }}.has_value()) {
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
-{%   for field in packet.cif0.fields if field.enabled and packet.cif7.enabled and not field.indicator_only %}
-{%     if field.is_optional %}
-if (m_{{ field.name }}_attributes.has_value()) {
-    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-}
-{%     else %}
-m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-{%     endif %}
-{%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not type_helper.is_scalar(field) %}
@@ -333,6 +401,9 @@ if (m_{{ field.name }}.has_value()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
 {%       if type_helper.is_variable_length(field) %}
         m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(field, type_helper) | indent(8) | trim }}
 {%       endif %}
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
@@ -379,6 +450,9 @@ if (m_{{ field.name }}.has_value()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
 {%       if type_helper.is_variable_length(field) %}
         m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+{%       endif %}
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(field, type_helper) | indent(8) | trim }}
 {%       endif %}
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
@@ -405,6 +479,13 @@ if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->none()) {
     reset_{{ packet.cif2.name }}();
 }
 {% endif %}
+{% if packet.cif7.enabled and packet.requires_cif_functions %}
+{%   for cif in (packet.cif0, packet.cif1, packet.cif2) if cif.enabled %}
+{%     for field in cif.fields if field.enabled and not field.indicator_only %}
+{{ sync_attributes(cif, field, type_helper) | trim }}
+{%     endfor %}
+{%   endfor %}
+{% endif %}
 {% endmacro %}
 
 {%- macro update_cif_pos(packet, type_helper) %}
@@ -446,6 +527,9 @@ curr_pos += m_{{ packet.cif7.name }}.size();
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
 m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+{%       if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       endif %}
 if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
@@ -457,6 +541,10 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       else %}
     curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    m_positions["{{ field.name }}_attributes"] = curr_pos;
+    curr_pos += decltype(m_{{ field.name }}_attributes)::value_type::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -469,6 +557,10 @@ curr_pos += {{ type_helper.member_type(field) }}::packed_size(m_data.data() + cu
 {%       else %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+curr_pos += decltype(m_{{ field.name }}_attributes)::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -479,6 +571,9 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
 {{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+{%       if packet.cif7.enabled %}
+{{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       endif %}
 {{ '    ' if packet.cif1.is_optional }}if (m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
@@ -490,6 +585,10 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%       else %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += decltype(m_{{ field.name }}_attributes)::value_type::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -502,6 +601,10 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%       else %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+{{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{{ '    ' if packet.cif1.is_optional }}curr_pos += decltype(m_{{ field.name }}_attributes)::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 {%     endif %}
 {%   endfor %}
 {%   if packet.cif1.is_optional %}
@@ -515,6 +618,9 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
 {{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+{%       if packet.cif7.enabled %}
+{{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       endif %}
 {{ '    ' if packet.cif2.is_optional }}if (m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
@@ -526,6 +632,10 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%       else %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += decltype(m_{{ field.name }}_attributes)::value_type::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -538,6 +648,10 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%       else %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+{{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_attributes"] = curr_pos;
+{{ '    ' if packet.cif2.is_optional }}curr_pos += decltype(m_{{ field.name }}_attributes)::stored_size(m_data.data() + curr_pos);
+{%       endif %}
 {%     endif %}
 {%   endfor %}
 {%   if packet.cif2.is_optional %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 2a88eae..3a04922 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -187,6 +187,12 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       if not field.is_optional %}
+curr_pos += m_{{ field.name }}_attributes.size();
+{%       endif %}
+{%     endif %}
 {%   endfor %}
 {% elif packet.cif1.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
@@ -219,6 +225,12 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       if not field.is_optional %}
+curr_pos += m_{{ field.name }}_attributes.size();
+{%       endif %}
+{%     endif %}
 {%   endfor %}
 {% elif packet.cif2.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
@@ -310,6 +322,15 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 {% endif %}
 {% endmacro%}
 
+{%- macro unpack_attributes(field) %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%   if field.is_optional %}
+m_{{ field.name }}_attributes.emplace();
+{%   endif %}
+m_{{ field.name }}_attributes{{ '->' if field.is_optional else '.' }}unpack_from(m_data, m_positions.at("{{ field.name }}_attributes"));
+curr_pos += m_{{ field.name }}_attributes{{ '->' if field.is_optional else '.' }}size();
+{% endmacro %}
+
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
@@ -378,15 +399,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
-{%         set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
-    m_positions.at("{{ field.name }}_attributes") = curr_pos;
-{%         if field.is_fixed_point %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{};
-{%         else %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
-{%         endif %}
-    vrtgen::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}_attributes->size();
+    {{ unpack_attributes(field) | indent(4) | trim }}
 {%       endif %}
 }
 {%     else %}
@@ -400,9 +413,7 @@ vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-vrtgen::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
-curr_pos += m_{{ field.name }}_attributes.size();
+{{ unpack_attributes(field) | trim }}
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -411,6 +422,9 @@ curr_pos += m_{{ field.name }}_attributes.size();
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
 m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+{%       if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       endif %}
 {%       if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif1.name }}.has_value() && m_{{ packet.cif1.name }}->{{ field.name }}()) {
 {%       else %}
@@ -426,6 +440,9 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     vrtgen::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ unpack_attributes(field) | indent(4) | trim }}
+{%       endif %}
 }
 {%     else %}
 if (m_{{ packet.cif0.name }}.cif1_enable()) {
@@ -438,6 +455,9 @@ if (m_{{ packet.cif0.name }}.cif1_enable()) {
     vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ unpack_attributes(field) | indent(4) | trim }}
+{%       endif %}
 }
 {%     endif %}
 {%   endfor %}
@@ -446,6 +466,9 @@ if (m_{{ packet.cif0.name }}.cif1_enable()) {
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
 m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+{%       if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%       endif %}
 {%       if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->{{ field.name }}()) {
 {%       else %}
@@ -461,6 +484,9 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     vrtgen::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ unpack_attributes(field) | indent(4) | trim }}
+{%       endif %}
 }
 {%     else %}
 if (m_{{ packet.cif0.name }}.cif2_enable()) {
@@ -473,6 +499,9 @@ if (m_{{ packet.cif0.name }}.cif2_enable()) {
     vrtgen::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+{%       if packet.cif7.enabled %}
+    {{ unpack_attributes(field) | indent(4) | trim }}
+{%       endif %}
 }
 {%     endif %}
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..491e346 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -139,14 +139,19 @@ class {{ class.type_ }}
 {
 public:
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
+{%   if field.template_type %}
     auto {{ field.name }}() -> V
     requires vrtgen::packing::cif7::is_scalar<T,V,N,R>
     {
-        auto swapped{ vrtgen::swap::from_be(m_{{ field.name }}) };
-        if constexpr (std::is_floating_point_v<V>) {
-            return vrtgen::fixed::to_fp<N,R>(swapped);
+        if constexpr (std::is_enum_v<V>) {
+            return static_cast<V>(vrtgen::swap::from_be(static_cast<std::underlying_type_t<V>>(m_{{ field.name }})));
+        } else {
+            auto swapped{ vrtgen::swap::from_be(m_{{ field.name }}) };
+            if constexpr (std::is_floating_point_v<V>) {
+                return vrtgen::fixed::to_fp<N,R>(swapped);
+            }
+            return swapped;
         }
-        return swapped;
     }
 
     [[nodiscard]]
@@ -161,6 +166,8 @@ public:
     {
         if constexpr (std::is_floating_point_v<V>) {
             m_{{ field.name }} = vrtgen::swap::to_be(static_cast<T>(vrtgen::fixed::to_int<N,R>(value)));
+        } else if constexpr (std::is_enum_v<V>) {
+            m_{{ field.name }} = static_cast<T>(vrtgen::swap::to_be(static_cast<std::underlying_type_t<V>>(value)));
         } else {
             m_{{ field.name }} = vrtgen::swap::to_be(value);
         }
@@ -171,6 +178,18 @@ public:
     {
         m_{{ field.name }} = value;
     }
+{%   else %}
+    [[nodiscard]]
+    auto {{ field.name }}() -> {{ type_helper.value_type(field) }}&
+    {
+        return m_{{ field.name }};
+    }
+
+    auto {{ field.name }}(const {{ type_helper.value_type(field) }}& value) -> void
+    {
+        m_{{ field.name }} = value;
+    }
+{%   endif %}
 
 {% endfor %}
     /**
@@ -180,15 +199,23 @@ public:
     auto size() const -> size_t
     {
         std::size_t retval{ 0 };
-        if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += sizeof(m_{{ field.name }});
+        retval += vrtgen::packing::cif7::size(m_{{ field.name }});
 {% endfor %}
-        } else {
+        return retval;
+    }
+
+    /**
+     * @brief Returns the number of {{ class.type_ }} bytes in the buffer
+     * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
+     * @return Number of {{ class.type_ }} bytes
+     */
+    static auto stored_size(const uint8_t* buffer_ptr) -> std::size_t
+    {
+        std::size_t retval{ 0 };
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += m_{{ field.name }}.size();
+        retval += vrtgen::packing::cif7::stored_size<{{ 'T' if field.template_type else type_helper.member_type(field) }}>(buffer_ptr + retval);
 {% endfor %}
-        }
         return retval;
     }
 
@@ -196,43 +223,30 @@ public:
      * @brief Pack {{ class.type_ }} as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add {{ class.type_ }} bytes
      */
-    auto pack_into(uint8_t* buffer_ptr) const -> void
+    auto pack_into(uint8_t* buffer_ptr) -> void
     {
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(buffer_ptr, &m_{{ field.name }}, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
-{% endfor %}
-        } else {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.pack_into(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
+        vrtgen::packing::cif7::pack_into(m_{{ field.name }}, buffer_ptr);
+        buffer_ptr += vrtgen::packing::cif7::size(m_{{ field.name }});
 {% endfor %}
-        }
     }
 
     /**
      * @brief Unpack buffer bytes into {{ class.type_ }}
-     * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
+     * @param data Bytes of the packet
+     * @param pos Position of the {{ class.type_ }} bytes
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void
+    auto unpack_from(std::span<uint8_t> data, std::size_t pos) -> void
     {
-        if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(&m_{{ field.name }}, buffer_ptr, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
+        vrtgen::packing::cif7::unpack_from(m_{{ field.name }}, data, pos);
+        pos += vrtgen::packing::cif7::size(m_{{ field.name }});
 {% endfor %}
-        } else {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.unpack_from(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
-{% endfor %}
-        }
     }
 
 private:
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-    T m_{{ field.name }};
+    {{ 'T' if field.template_type else type_helper.member_type(field) }} m_{{ field.name }}{};
 {% endfor %}
 
 }; // end class {{ class.type_ }}
-- 
2.43.0


From de6ed8345307e2fb7f92070f16237de37f6acf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 41/47] fix: a packet class with attributes does not match a
 packet without the CIF7 word

---
 .../backend/cpp/templates/macros/function_defs/match.jinja2  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 3733740..865411b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -58,6 +58,11 @@
         return { "Failed to match. Packet does not have {{ packet.cif2.name }}." };
     }
 {%   endif %}
+{%   if packet.cif7.enabled %}
+    if (!{{ packet.cif0.name }}.cif7_enable()) {
+        return { "Failed to match. Packet does not have {{ packet.cif7.name }}." };
+    }
+{%   endif %}
 {% endif %}
 {% endmacro %}
 
-- 
2.43.0


From 76ea4c3c4a9a23cbe965d2d9afec62546745e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:02 +0000
Subject: [PATCH 42/47] fix: every part of a user-defined stream identifier has
 its own definition

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From 40a4ec3da585d5be37d00e61ea5064c19e1d156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:02 +0000
Subject: [PATCH 43/47] fix: user-defined stream identifiers can be set and are
 copied into acknowledgements

---
 .../cpp/templates/controllee_base.hpp.jinja2   | 18 ++++++++++++++----
 .../macros/function_defs/stream_id.jinja2      |  7 ++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index c28b7d8..e417832 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -141,6 +141,16 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro copy_stream_id(ack, packet) %}
+{% if packet.stream_id.user_defined %}
+{%   for field in packet.stream_id.fields if field.user_defined %}
+{{ ack }}.stream_id().{{ field.name }}(packet.stream_id().{{ field.name }}());
+{%   endfor %}
+{% else %}
+{{ ack }}.stream_id(packet.stream_id());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
@@ -442,7 +452,7 @@ private:
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
+                    {{ copy_stream_id('ack_v', packet) | indent(20) | trim }}
                     ack_v.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_v.controllee_id(packet.controllee_id());
@@ -472,7 +482,7 @@ private:
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
+                    {{ copy_stream_id('ack_x', packet) | indent(20) | trim }}
                     ack_x.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_x.controllee_id(packet.controllee_id());
@@ -494,7 +504,7 @@ private:
                     }
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
+                        {{ copy_stream_id('ack_s', packet) | indent(24) | trim }}
                         ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                         ack_s.controllee_id(packet.controllee_id());
@@ -519,7 +529,7 @@ private:
 {%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
+                    {{ copy_stream_id('ack_s', packet) | indent(20) | trim }}
                     ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_s.controllee_id(packet.controllee_id());
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
index 32ca6a6..8f99ba5 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
@@ -34,7 +34,12 @@ auto {{ packet.name }}::{{ packet.stream_id.name }}() const -> {{ type_helper.me
 {% endif %}
 }
 
-{% if not packet.stream_id.user_defined %}
+{% if packet.stream_id.user_defined %}
+auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }}& value) -> void
+{
+    m_{{ packet.stream_id.name }} = value;
+}
+{% else %}
 auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }} value) -> void
 {
     auto swapped{ vrtgen::swap::to_be(value) };
-- 
2.43.0


From 7ffea99bf00a3e93eaa3bbe4dc3c2b81739624a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:34 +0000
Subject: [PATCH 44/47] fix: reject commands and acknowledgements whose CAM
 announces identifiers the class does not have

---
 .../backend/cpp/templates/macros/function_defs/match.jinja2   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 865411b..c68928a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -147,7 +147,7 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { "Failed to match. Packet ends before {{ packet.cam.name }}." };
     }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
-{%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
+{%   for field in packet.cam.fields if ((field.enabled and not field.is_optional) or field.is_enable) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
 {%     endif %}
@@ -276,7 +276,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {%   endif %}
-{%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
+{%   for field in packet.cam.fields if ((field.enabled and not field.is_optional) or field.is_enable) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
 {%     endif %}
-- 
2.43.0


From a2255395b8f719d8594f9e3cd9c5f6e27f16a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:02 +0000
Subject: [PATCH 45/47] fix: clearing a field that was set but not yet
 serialised clears its attributes too

---
 .../backend/cpp/templates/macros/function_defs/cif.jinja2     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 70b92b8..d601a6b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -60,7 +60,6 @@
     const auto attributes_pos{ m_positions.at("{{ field.name }}_attributes") };
     const auto attributes_size{ decltype(m_{{ field.name }}_attributes)::value_type::stored_size(m_data.data() + attributes_pos) };
     m_data.erase(m_data.begin() + attributes_pos, m_data.begin() + attributes_pos + attributes_size);
-    m_{{ field.name }}_attributes.reset();
 }
 {% endmacro %}
 
@@ -259,6 +258,9 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   if not type_helper.is_scalar(field) %}
     m_{{ field.name }}.reset();
 {%   endif %}
+{%   if cif7.enabled and not field.indicator_only %}
+    m_{{ field.name }}_attributes.reset();
+{%   endif %}
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
-- 
2.43.0


From c4653613961c0f9fda40c31dc7a8624ae66953dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:53 +0000
Subject: [PATCH 46/47] fix: a GPS ASCII field changed in place is packed with
 its real number of words

---
 include/vrtgen/packing/cif0.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 883d7a9..fa781a8 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1050,7 +1050,7 @@ public:
      */
     uint32_t number_of_words() const noexcept
     {
-        return m_packed.get<31,32,uint32_t>();
+        return static_cast<uint32_t>((m_ascii_sentences.size() + 3) / 4);
     }
 
     /**
@@ -1091,7 +1091,6 @@ public:
     {
         m_ascii_sentences = value;
         m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
-        number_of_words(m_ascii_sentences.size()/4);
     }
 
     /**
@@ -1101,7 +1100,7 @@ public:
     std::size_t size() const noexcept
     {
         return m_packed.size() +
-               m_ascii_sentences.size();
+               number_of_words() * sizeof(uint32_t);
     }
 
     /**
@@ -1122,9 +1121,13 @@ public:
      */
     void pack_into(uint8_t* buffer_ptr) const
     {
-        m_packed.pack_into(buffer_ptr);
+        auto* const end = buffer_ptr + size();
+        auto packed = m_packed;
+        packed.set<31,32>(number_of_words());
+        packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
+        buffer_ptr = std::copy(m_ascii_sentences.begin(), m_ascii_sentences.end(), buffer_ptr);
+        std::fill(buffer_ptr, end, 0);
     }
 
     /**
@@ -1136,23 +1139,10 @@ public:
         auto ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_ascii_sentences.resize(number_of_words()*4);
-        std::copy(ptr, ptr + number_of_words()*4, m_ascii_sentences.data());
+        m_ascii_sentences.assign(ptr, ptr + m_packed.get<31,32,uint32_t>() * sizeof(uint32_t));
     }
 
 private:
-    /**
-     * @brief Sets the Number of Words subfield value
-     * @param value Number of Words subfield value to set
-     * 
-     * Number of Words subfield is 32 bits long at bit position 31 in word 2
-     * See VITA 49.2-2017 Figure 9.4.7-1
-     */
-    void number_of_words(uint32_t value) noexcept
-    {
-        m_packed.set<31,32>(value);
-    }
-
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint8_t> m_ascii_sentences;
 
-- 
2.43.0


From ca620d8f4a52d67d6ac34d3d5ccc34c768e49bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 47/47] fix: an acknowledgement declares the enumerations of
 its discrete I/O fields

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 24fef09..0ce0899 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -337,7 +337,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_ack):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0

