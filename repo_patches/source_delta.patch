From 6622f33b6436ff650e909b974d37e5720d5be199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:02 +0000
Subject: [PATCH 01/66] fix: pb: advance the output pointer when a reader
 returns short reads

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..01070b0 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = (uint8_t *)data;
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From acd732cb7be59996498adddcefc6695a8c77a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:02 +0000
Subject: [PATCH 02/66] fix: pb: report a truncated delimited message read via
 reader

---
 include/spb/pb.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..1c4f6fb 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -135,6 +135,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size, const deseria
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        check_if_empty_or_throw(substream);
     }
     else
     {
@@ -159,6 +160,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From e64540edcbd51828170f51efc6d193978c52430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 03/66] fix: pb: accept packed and unpacked encoding for every
 repeated scalar

---
 include/spb/pb/deserialize.hpp | 30 +++++++++++++++++-------------
 include/spb/pb/wire-types.h    |  6 ++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 01070b0..35544f7 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -599,23 +599,27 @@ void deserialize(auto &stream, Container &value, wire_type type)
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize(auto &stream, Container &value, wire_type type)
 {
-    if constexpr (is_packed(mode.encoder))
+    using value_type = typename Container::value_type;
+
+    if constexpr (spb::detail::proto_field_number<value_type>)
     {
-        deserialize_packed<mode>(stream, value);
+        //- scalars could be encoded as packed or as unpacked (no matter of the `packed` option)
+        //- https://protobuf.dev/programming-guides/encoding/#packed
+        if (type == wire_type::length_delimited)
+            return deserialize_packed<set_packed(mode)>(stream, value);
+    }
+
+    if constexpr (mode.max_count)
+        check_size(value.size() + 1, mode.max_count);
+
+    if constexpr (std::is_same_v<value_type, bool>)
+    {
+        check_wire_type_or_throw(type, wire_type::varint);
+        value.emplace_back(read_varint<bool>(stream));
     }
     else
     {
-        if constexpr (mode.max_count)
-            check_size(value.size() + 1, mode.max_count);
-
-        if constexpr (std::is_same_v<typename Container::value_type, bool>)
-        {
-            value.emplace_back(read_varint<bool>(stream));
-        }
-        else
-        {
-            deserialize<mode>(stream, value.emplace_back(), type);
-        }
+        deserialize<reset_packed(mode)>(stream, value.emplace_back(), type);
     }
 }
 
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 5327182..62dafe4 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -77,6 +77,12 @@ constexpr auto reset_packed(serialize_mode a) noexcept -> serialize_mode
     return a;
 }
 
+constexpr auto set_packed(serialize_mode a) noexcept -> serialize_mode
+{
+    a.encoder = make_packed(a.encoder);
+    return a;
+}
+
 constexpr auto encoder_type(scalar_encoder a) noexcept -> scalar_encoder
 {
     return scalar_encoder(a & 0x07);
-- 
2.43.0


From eb3273c171d0a2606870dbdcd250bc123f38e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 04/66] fix: pb: report a varint which does not fit into a
 small signed integer

---
 include/spb/pb/deserialize.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 35544f7..cb85c84 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -276,12 +276,13 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
                     //- so int32_t(-2) is encoded as "\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x01",
                     // same as int64_t(-2)
                     //- but it should be encoded as  "\xfe\xff\xff\xff\x0f"
-                    value = T(value);
+                    if (sizeof(T) == sizeof(int32_t) || value <= std::numeric_limits<uint32_t>::max())
+                        value = uint64_t(int64_t(int32_t(value)));
                 }
                 auto result = T(value);
                 if constexpr (std::is_signed_v<T>)
                 {
-                    if (result == std::make_signed_t<T>(value)) [[likely]]
+                    if (int64_t(result) == int64_t(value)) [[likely]]
                         return result;
                 }
                 else
-- 
2.43.0


From c2ed1c44f0fcfb3bc624803679adfa06415a867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 05/66] fix: pb: merge an embedded message which occurs more
 than once

---
 include/spb/pb/deserialize.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index cb85c84..b7fb68f 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <string_view>
 #include <type_traits>
+#include <variant>
 
 namespace spb::pb::detail
 {
@@ -493,6 +494,12 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<typename Container::value_type>)
+    {
+        //- embedded messages are merged
+        if (p_value.has_value())
+            return deserialize<mode>(stream, *p_value, type);
+    }
     auto &value = p_value.emplace(typename Container::value_type());
     deserialize<mode>(stream, value, type);
 }
@@ -520,7 +527,10 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    if (!value)
+        value = std::make_unique<T>();
+
+    //- embedded messages are merged
     deserialize<mode>(stream, *value, type);
 }
 
@@ -708,6 +718,12 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<std::variant_alternative_t<ordinal, T>>)
+    {
+        //- embedded messages are merged
+        if (variant.index() == ordinal)
+            return deserialize<mode>(stream, std::get<ordinal>(variant), type);
+    }
     deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
 }
 
-- 
2.43.0


From 3d3d305a3bc8259ee33186dce61e13f2ce7727a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 06/66] fix: the last occurrence of a map key wins

---
 include/spb/json/deserialize.hpp | 3 ++-
 include/spb/pb/deserialize.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..e564569 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -704,7 +704,8 @@ template <field_attributes attributes> void deserialize(auto &stream, spb::detai
 
         auto map_value = mapped_type();
         deserialize<attributes>(stream, map_value);
-        value.emplace(std::move(map_key), std::move(map_value));
+        //- the last occurrence of a key wins
+        value[std::move(map_key)] = std::move(map_value);
     } while (stream.consume_and_skip_white_space(','));
 
     if (!stream.consume_and_skip_white_space('}')) [[unlikely]]
diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index b7fb68f..2b587ff 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -707,7 +707,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
     }
     if (key_defined && value_defined) [[likely]]
     {
-        value.insert(std::move(pair));
+        //- the last occurrence of a key wins
+        value[std::move(pair.first)] = std::move(pair.second);
     }
     else [[unlikely]]
     {
-- 
2.43.0


From 50ac194dfc5f618781b103ac51d980a5c2b184af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:53 +0000
Subject: [PATCH 07/66] fix: pb: accept map entries with a missing key, a
 missing value or an unknown field

---
 include/spb/pb/deserialize.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 2b587ff..9e25bad 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -647,8 +647,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
     auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
     while (!stream.empty())
     {
         const auto tag          = tag_type(read_varint<uint32_t>(stream));
@@ -678,7 +676,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -699,21 +696,16 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+                stream.skip_or_throw(read_varint<uint32_t>(stream));
+            else
+                skip(stream, field_type);
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        //- the last occurrence of a key wins
-        value[std::move(pair.first)] = std::move(pair.second);
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    //- missing key or value has its default value, the last occurrence of a key wins
+    value[std::move(pair.first)] = std::move(pair.second);
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From 2568c45c41831b7a0a7b65c444e16e495927aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 08/66] fix: pb: keep the presence of an empty string, bytes or
 message

An empty element of a repeated field, an optional or oneof field which is
set to an empty value and an empty submessage were left out.
---
 include/spb/pb/serialize.hpp                | 41 ++++++++++++++-------
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  2 +-
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..3407580 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -245,14 +245,18 @@ void serialize(auto &stream, const spb::detail::proto_label_repeated auto &conta
     serialize_packed<mode>(stream, container);
 }
 
+//- value is present (even if it is empty)
+template <serialize_mode mode> void serialize_present(auto &stream, uint32_t field, const auto &value)
+{
+    serialize<mode>(stream, field, value);
+}
+
+//- value is present (even if it is empty)
 template <serialize_mode mode>
-void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
 {
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
-    if (value.empty())
-        return;
-
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
 
@@ -265,12 +269,17 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_stri
 }
 
 template <serialize_mode mode>
-void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
 {
-    using stream_type = std::remove_cvref_t<decltype(stream)>;
+    if (!value.empty())
+        serialize_present<mode>(stream, field, value);
+}
 
-    if (value.empty())
-        return;
+//- value is present (even if it is empty)
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
 
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
@@ -280,6 +289,13 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_byte
     stream.write(value.data(), value.size());
 }
 
+template <serialize_mode mode>
+void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+{
+    if (!value.empty())
+        serialize_present<mode>(stream, field, value);
+}
+
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &value)
 {
@@ -325,7 +341,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize_present<mode>(stream, field, value);
         }
     }
 }
@@ -346,23 +362,20 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
     const auto size = serialize_size<mode>(value);
-    if (!size) [[unlikely]]
-        return;
-
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
     serialize_value(stream, value);
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..5d3129e 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n";
-- 
2.43.0


From b05c3fc74d1cf73116f5f04e64475cd47c9baaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 09/66] fix: pb: do not compute the size of a nested message
 twice

The size of every nested message was computed twice on each level, so the
time to serialize a message grew exponentially with its depth.
---
 include/spb/pb/serialize.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index 3407580..1cb77bc 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -310,8 +310,15 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
         const auto size = serialize_size<key_encoder>(1, k) + serialize_size<value_encoder>(2, v);
         serialize_tag(stream, field, wire_type::length_delimited);
         serialize_varint(stream, size);
-        serialize<key_encoder>(stream, 1, k);
-        serialize<value_encoder>(stream, 2, v);
+        if constexpr (std::remove_cvref_t<decltype(stream)>::size_only)
+        {
+            stream.size += size;
+        }
+        else
+        {
+            serialize<key_encoder>(stream, 1, k);
+            serialize<value_encoder>(stream, 2, v);
+        }
     }
 }
 
@@ -378,7 +385,10 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
     const auto size = serialize_size<mode>(value);
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, size);
-    serialize_value(stream, value);
+    if constexpr (std::remove_cvref_t<decltype(stream)>::size_only)
+        stream.size += size;
+    else
+        serialize_value(stream, value);
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
-- 
2.43.0


From 61ed46c8b5ec9068a594d0e9b44785413c7baeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 10/66] fix: json: keep the presence of an empty string or
 bytes

---
 include/spb/json/serialize.hpp                | 35 ++++++++++++-------
 src/spb-proto-compiler/dumper/json/dumper.cpp |  2 +-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..ee400c4 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -324,14 +324,28 @@ void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &v
     serialize<attributes>(stream, value);
 }
 
+//- value is present (even if it is empty)
 template <field_attributes attributes>
-void serialize(auto &stream, const spb::detail::proto_field_string auto &value, std::string_view field)
+void serialize_present(auto &stream, const auto &value, std::string_view field)
 {
-    if (value.empty())
-        return;
+    using value_type = std::remove_cvref_t<decltype(value)>;
 
-    serialize_key(stream, field);
-    serialize<attributes>(stream, value);
+    if constexpr (spb::detail::proto_field_string<value_type> || spb::detail::proto_field_bytes<value_type>)
+    {
+        serialize_key(stream, field);
+        serialize<attributes>(stream, value);
+    }
+    else
+    {
+        serialize<attributes>(stream, value, field);
+    }
+}
+
+template <field_attributes attributes>
+void serialize(auto &stream, const spb::detail::proto_field_string auto &value, std::string_view field)
+{
+    if (!value.empty())
+        serialize_present<attributes>(stream, value, field);
 }
 
 template <field_attributes attributes>
@@ -350,11 +364,8 @@ void serialize(auto &stream, const spb::detail::proto_field_bytes auto &value)
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_field_bytes auto &value, std::string_view field)
 {
-    if (value.empty())
-        return;
-
-    serialize_key(stream, field);
-    serialize<attributes>(stream, value);
+    if (!value.empty())
+        serialize_present<attributes>(stream, value, field);
 }
 
 template <field_attributes attributes>
@@ -475,7 +486,7 @@ template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes attributes, typename T>
@@ -489,7 +500,7 @@ template <field_attributes attributes, typename T>
 void serialize(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
 {
     if (p_value)
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes> void serialize(auto &stream, const spb::detail::proto_message auto &value)
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..10bbe87 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -213,7 +213,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\tswitch(index)\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize_present<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
                << json_field_name(oneof.fields[i]) << "\"sv);\n";
-- 
2.43.0


From b8af5eadf5dde3a59d583528095b17ca23b54ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 11/66] fix: json: accept white space around every value

White space was rejected behind a number, a string, bytes, true, false and
null and in front of the top level value. A token read via reader was
compared with the last buffered character instead of the one behind it.
---
 include/spb/json.hpp             |  2 ++
 include/spb/json/deserialize.hpp | 60 ++++++++++++++------------------
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index e564569..c8a176a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -81,6 +81,17 @@ static constexpr inline auto fnv1a_hash(std::string_view str) noexcept -> uint64
     return hash;
 }
 
+//- https://datatracker.ietf.org/doc/html/rfc8259#section-2
+static constexpr inline auto is_white_space(uint8_t c) noexcept -> bool
+{
+    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+}
+
+static constexpr inline auto is_identifier_char(uint8_t c) noexcept -> bool
+{
+    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+}
+
 template <spb::detail::proto_field_bytes T> void clear(T &container)
 {
     if constexpr (spb::detail::proto_field_bytes_resizable<T>)
@@ -147,23 +158,12 @@ struct istream_buffer
         if (memcmp(token.data(), p_start, token.size()) != 0)
             return false;
 
-        if (size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (size() > token.size() && is_identifier_char(p_start[token.size()])) [[unlikely]]
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -171,7 +171,7 @@ struct istream_buffer
     }
     void skip_white_spaces() noexcept
     {
-        while (!empty() && isspace(*p_start))
+        while (!empty() && is_white_space(*p_start))
         {
             ++p_start;
         }
@@ -252,23 +252,12 @@ struct istream_reader
         if (!token_view.starts_with(token))
             return false;
 
-        if (token_view.size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = token_view.back();
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
-        {
-            skip(token.size());
-            return true;
-        }
+        if (token_view.size() > token.size() && is_identifier_char(token_view[token.size()])) [[unlikely]]
+            return false;
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -282,7 +271,7 @@ struct istream_reader
             size_t spaces = 0;
             for (auto c : view)
             {
-                if (!isspace(c))
+                if (!is_white_space(c))
                 {
                     consume_bytes(spaces);
                     return;
@@ -529,6 +518,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            stream.skip_white_spaces();
             return;
         }
         char utf8_buffer[4];
@@ -558,6 +548,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
@@ -660,6 +651,7 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
     }
 
     base64_decode_string(value, stream, attributes.max_size);
+    stream.skip_white_spaces();
 }
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
-- 
2.43.0


From b0852e0f8bcf745a5ed22030e785e4937a856366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 12/66] fix: json: do not terminate when a reader throws

consume_current_char was noexcept although it calls the reader.
---
 include/spb/json/deserialize.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index c8a176a..2aebfc7 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -217,13 +217,10 @@ struct istream_reader
         return m_consumed_size;
     }
 
-    [[nodiscard]] auto current_char() -> char
+    [[nodiscard]] auto current_char() -> int
     {
         auto view = reader.view(1);
-        if (view.empty())
-            throw std::runtime_error("unexpected end of stream");
-
-        return view[0];
+        return view.empty() ? -1 : uint8_t(view[0]);
     }
 
     [[nodiscard]] auto consume(char c) -> bool
@@ -294,8 +291,11 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
+        if (reader.view(1).empty()) [[unlikely]]
+            throw std::runtime_error("unexpected end of stream");
+
         consume_bytes(1);
         if (skip_white_space)
             skip_white_spaces();
-- 
2.43.0


From 5fbd2ed0e8c420b7acc633317ba1c94c40c07feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 13/66] fix: json: validate utf8 of a deserialized string

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 2aebfc7..b643af8 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -519,7 +519,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                     throw std::runtime_error("invalid string size");
             }
             stream.skip_white_spaces();
-            return;
+            break;
         }
         char utf8_buffer[4];
         auto utf8_size = unescape(stream, utf8_buffer);
-- 
2.43.0


From 9f91a0713347c7cf0748c76f97434b05ca0a54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 14/66] fix: json: do not loop forever on an unterminated
 base64 string

and report an empty base64 string for bytes with a fixed size.
---
 include/spb/json/base64.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..581177e 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -93,7 +93,14 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         throw std::runtime_error("expecting '\"'");
 
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (output.size() != 0) [[unlikely]]
+                throw std::runtime_error("invalid base64 size");
+        }
         return;
+    }
 
     auto mask = uint8_t(0);
 
@@ -108,7 +115,10 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         length = std::min(length, view.size());
 
         //- align to 4 bytes
-        auto aligned_length = length & ~3;
+        auto aligned_length = length & ~size_t(3);
+        if (!end_found && aligned_length <= 4) [[unlikely]]
+            throw std::runtime_error("invalid base64");
+
         if (aligned_length > 4) [[likely]]
         {
             auto out_length = ((aligned_length - 4) / 4) * 3;
-- 
2.43.0


From 82e1cf4492b07a7539dcebdddc6cfa11e8d6abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 15/66] fix: json: unescape keys, enum names and quoted numbers

---
 include/spb/json/deserialize.hpp | 46 +++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index b643af8..df10e97 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -363,32 +363,46 @@ auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error(R"(expecting '"')");
 
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
+    size_t size           = 0;
+    auto append_to_buffer = [&](const char *str, size_t str_size)
+    {
+        if (size + str_size <= max_size) [[likely]]
+            memcpy(buffer + size, str, str_size);
+
+        size += str_size;
+    };
+
     for (;;)
     {
-        const auto pos = view.find_first_of(R"(\")", start);
+        // +1 for "
+        const auto view = stream.view(1, max_size + 1);
+        const auto pos  = view.find_first_of(R"(\")");
         if (pos == view.npos) [[unlikely]]
         {
+            append_to_buffer(view.data(), view.size());
             stream.skip(view.size());
-            break;
         }
-
-        if (view[pos] == '"') [[likely]]
+        else
         {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
+            append_to_buffer(view.data(), pos);
+            // +1 for '"' or '\'
             stream.skip(pos + 1);
-            stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
+            if (view[pos] == '"') [[likely]]
+            {
+                stream.skip_white_spaces();
+                return (size >= min_size && size <= max_size) ? std::string_view{buffer, size}
+                                                              : std::string_view{};
+            }
+            char utf8_buffer[4];
+            const auto utf8_size = unescape(stream, utf8_buffer);
+            append_to_buffer(utf8_buffer, utf8_size);
+        }
+        if (size > max_size) [[unlikely]]
+        {
+            ignore_string_until_double_quota(stream);
+            return {};
         }
-
-        // +2 for \ and char behind
-        start = pos + 2;
     }
-    ignore_string_until_double_quota(stream);
-    return {};
 }
 
 auto unicode_from_hex(auto &stream) -> uint16_t
-- 
2.43.0


From e7a8122f8c60a2e645c3a6b020aece9905bb0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 16/66] fix: json: accept numbers longer than 32 characters

---
 include/spb/json/deserialize.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index df10e97..6d73b3d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -92,6 +92,11 @@ static constexpr inline auto is_identifier_char(uint8_t c) noexcept -> bool
     return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
 }
 
+static constexpr inline auto is_number(std::string_view str) noexcept -> bool
+{
+    return str.find_first_not_of("0123456789+-.eE") == str.npos;
+}
+
 template <spb::detail::proto_field_bytes T> void clear(T &container)
 {
     if constexpr (spb::detail::proto_field_bytes_resizable<T>)
@@ -548,15 +553,22 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
     {
         //- https://protobuf.dev/programming-guides/proto2/#json
         //- number can be a string
-        char buffer[32];
-        auto view   = deserialize_string_to_buffer(stream, 1, 32, buffer);
+        char buffer[io::buffered_reader::BUFFER_SIZE - 1];
+        auto view   = deserialize_string_to_buffer(stream, 1, sizeof(buffer), buffer);
         auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
         if (result.ec != std::errc{} || result.ptr != (view.data() + view.size())) [[unlikely]]
             throw std::runtime_error("invalid number");
 
         return;
     }
-    auto view   = stream.view(1, 32);
+    auto view = stream.view(1, 32);
+    if (is_number(view)) [[unlikely]]
+    {
+        //- the number could be longer than the view
+        view = stream.view(1, io::buffered_reader::BUFFER_SIZE);
+        if (view.size() >= io::buffered_reader::BUFFER_SIZE && is_number(view)) [[unlikely]]
+            throw std::runtime_error("invalid number");
+    }
     auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
-- 
2.43.0


From f52ff7018e15cb9b427147ccba1d055b8a9aa2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 17/66] fix: json: write NaN and infinity as a string

---
 include/spb/json/serialize.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index ee400c4..8ecc3e5 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,16 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/json/
+        //- NaN and infinity are not numbers in JSON
+        if (std::isnan(value)) [[unlikely]]
+            return write_string(stream, R"("NaN")");
+
+        if (std::isinf(value)) [[unlikely]]
+            return value > 0 ? write_string(stream, R"("Infinity")") : write_string(stream, R"("-Infinity")");
+    }
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From 083e36d4b2d2f73e00f3ebee289daffba2aac45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 18/66] fix: json: escape string keys of a map

and report characters behind a number or bool key.
---
 include/spb/json/deserialize.hpp |  4 +++-
 include/spb/json/serialize.hpp   | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6d73b3d..adc60da 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -682,7 +682,7 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
 {
-    if constexpr (std::is_same_v<T, std::string>)
+    if constexpr (spb::detail::proto_field_string<T>)
     {
         deserialize<attributes>(stream, map_key);
     }
@@ -692,6 +692,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 8ecc3e5..6d32321 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -465,15 +465,15 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = false;
     for (const auto &[map_key, map_value] : map)
     {
-        if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
+        put_comma_if_needed(stream);
+
+        if constexpr (std::is_same_v<key_type, std::string_view> || spb::detail::proto_field_string<key_type>)
         {
-            serialize_key(stream, map_key);
+            serialize<attributes>(stream, map_key);
+            stream.write(':');
         }
         else
         {
-            if (stream.put_comma)
-                stream.write(',');
-
             stream.write('"');
             serialize<attributes>(stream, map_key);
             write_string(stream, R"(":)");
-- 
2.43.0


From c7ceb538875fdda59c3b33cb1a1628f576bbc3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 19/66] fix: json: require exactly one comma between elements
 of a fixed size array

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index adc60da..28ea271 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -659,8 +659,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From 522133af93c29aa41d6229171e64c8a12de15c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 20/66] fix: json: accept null for a oneof field

---
 include/spb/json/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 28ea271..b270f57 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -865,6 +865,9 @@ template <field_attributes attributes, typename T> T deserialize_bitfield(auto &
 template <field_attributes attributes, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant)
 {
+    if (stream.consume_and_skip_white_space("null"sv))
+        return;
+
     deserialize<attributes>(stream, variant.template emplace<ordinal>());
 }
 
-- 
2.43.0


From 57dc730f613631cbf683a2ba26a0a936cc66f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 21/66] fix: json: do not truncate an enum number before it is
 checked

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 10bbe87..5d8e088 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -294,15 +294,14 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
-    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (" << full_name
-           << "(enum_int))\n\t\t\t{\n";
+    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (enum_int)\n\t\t\t{\n";
     std::set<int32_t> numbers_taken;
     for (const auto &field : my_enum.fields)
     {
         if (!numbers_taken.insert(field.number).second)
             continue;
 
-        stream << "\t\t\tcase " << full_name << "::" << field.name.get_name() << ":\n";
+        stream << "\t\t\tcase int32_t(" << full_name << "::" << field.name.get_name() << "):\n";
     }
     stream << "\t\t\t\tvalue = " << full_name << "(enum_int);\n\t\t\t\treturn ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From c4fd8dd6c39aa18449e5a534ef21ab7070444a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 22/66] fix: json: ignore unknown fields of an empty message

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 5d8e088..84f87e0 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -366,8 +366,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From 3e084602bddc3a0d15c2391dc4ccdc83b6f4aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 23/66] fix: compiler: use the options of oneof fields

---
 src/spb-proto-compiler/ast/ast-options.cpp    | 8 ++++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 ++++++-
 src/spb-proto-compiler/parser/parser.cpp      | 1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..97201da 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -289,6 +289,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 84f87e0..4080fb5 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -420,6 +420,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
         name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                        .parsed_name = field_name,
                                                                        .name        = field.name,
+                                                                       .attributes  = field.key.attributes,
                                                                    });
         if (field_name != field.name.proto_name)
         {
@@ -428,7 +429,9 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 
             name_map.emplace(
                 spb::json::detail::djb2_hash(field.name.proto_name),
-                one_field{.parsed_name = std::string(field.name.proto_name), .name = field.name});
+                one_field{.parsed_name = std::string(field.name.proto_name),
+                          .name        = field.name,
+                          .attributes  = field.key.attributes});
         }
     }
     for (const auto &oneof : message.oneofs)
@@ -442,6 +445,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -453,6 +457,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..f7cfbe6 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -770,6 +770,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 0110fcc51110beb277eb7ea9674c260863bd77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 24/66] fix: compiler: serialize every oneof of a message

The generated code of a message with more than one oneof did not compile
and only the first one was serialized.
---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 +++----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 4080fb5..60ae01e 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,14 +209,13 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize_present<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize_present<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 5d3129e..0625f43 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize_present<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From bf2dc83a72add37ba527e8c7dc633ecf9c1e6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 25/66] fix: json: use names of enum values from the proto file

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 60ae01e..3bb63db 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -239,7 +239,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -259,12 +259,12 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, const proto_base *>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        name_map.emplace(spb::json::detail::djb2_hash(field.name.proto_name), &field);
+        key_size_min = std::min(key_size_min, field.name.proto_name.size());
+        key_size_max = std::max(key_size_max, field.name.proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -276,8 +276,9 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\tswitch (enum_hash)\n\t\t\t{\n";
     auto last_hash = name_map.begin()->first + 1;
     auto put_break = false;
-    for (const auto &[hash, name] : name_map)
+    for (const auto &[hash, p_field] : name_map)
     {
+        const auto name = p_field->name.proto_name;
         if (hash != last_hash)
         {
             last_hash = hash;
@@ -288,7 +289,7 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
             stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
         }
         stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+               << "::" << p_field->name.get_name() << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From 0893dcfae8fa744325b8f37a84466d809da88b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 26/66] fix: json: convert field names to camelCase as the
 protobuf compiler does

Only the letter behind an underscore is changed.
---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 3bb63db..9a94e01 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -41,17 +41,11 @@ auto json_name_from_options(const proto_attributes &attributes) -> std::string_v
     return attributes.json_name;
 }
 
+//- the same conversion as in the protobuf compiler
 auto convert_to_camelCase(std::string_view input) -> std::string
 {
-    auto result = std::string(input);
-    if (!result.empty())
-        result[0] = char(std::tolower(result[0]));
-
-    if (input.find('_') == std::string::npos)
-        return result;
-
-    auto index = 0U;
-    auto up    = false;
+    auto result = std::string();
+    auto up     = false;
     for (auto c : input)
     {
         if (c == '_')
@@ -60,12 +54,10 @@ auto convert_to_camelCase(std::string_view input) -> std::string
         }
         else
         {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
-            index += 1;
+            result += up ? char(std::toupper(c)) : c;
             up = false;
         }
     }
-    result.resize(index);
     return result;
 }
 
-- 
2.43.0


From a367bc11e1f5f1e7e6d4822da4d4cf5bc86ac5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 27/66] fix: compiler: accept type names which start with a
 keyword and an underscore

---
 src/spb-proto-compiler/parser/char_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..c0a4ff1 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -107,7 +107,7 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            if (!isalnum(static_cast<unsigned char>(next)) && next != '_')
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From 5acb10544e497e9a7b1f307f270b3223652e6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 28/66] fix: compiler: accept option arrays and structs without
 spaces

---
 src/spb-proto-compiler/parser/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f7cfbe6..9c409d7 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -454,24 +454,24 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "[");
-    while (!stream.consume("]"))
+    consume_or_fail(stream, '[');
+    while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "{");
+    consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
-    while (!stream.consume("}"))
+    while (!stream.consume('}'))
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
         parse_option_value(stream, options[option_name]);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
-- 
2.43.0


From 322a8edc2f4c83afbef52d11fdb675e9d2a5d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 29/66] fix: compiler: accept hexadecimal numbers which start
 with a letter

---
 src/spb-proto-compiler/parser/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 9c409d7..c98377d 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -96,7 +96,8 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
 
-        if (!::isdigit(stream.current_char()))
+        const auto c = static_cast<unsigned char>(stream.current_char());
+        if (base == 8 && !::isdigit(c))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-- 
2.43.0


From 328408bdae460f536e223486a9b97f161735f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 30/66] fix: compiler: do not loop forever on a zero byte

---
 src/spb-proto-compiler/parser/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index c98377d..3ccd439 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -980,7 +980,10 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
-        return;
+        if (stream.empty())
+            return;
+
+        return stream.throw_parse_error("expecting top level definition");
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
     case 'i':
-- 
2.43.0


From 3fd4d0a47297686dbc52220c0cff2600511bc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 31/66] fix: compiler: accept a file which is imported by more
 than one file

---
 src/spb-proto-compiler/parser/parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3ccd439..f68a0cc 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -381,11 +381,14 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         try
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
-            if (!ctx.already_parsed.insert(import_file_path.string()).second)
+            const auto import_id        = fs::weakly_canonical(import_file_path).string();
+            if (!ctx.already_parsed.insert(import_id).second)
                 return;
 
             file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
                 std::move(import_comment);
+            //- the same file could be imported by another file
+            ctx.already_parsed.erase(import_id);
         }
         catch (const std::runtime_error &)
         {
@@ -1062,7 +1065,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(file_path.string());
+    already_parsed.insert(fs::weakly_canonical(file_path).string());
     return parse_proto_file(file_path, ctx);
 }
 
-- 
2.43.0


From e95c21ca67378b33141e3bd9b7cc5f26b7d2bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 32/66] fix: compiler: resolve types relative to the enclosing
 packages

A type from an imported file of the same package and a type name which
starts with the own package could not be resolved.
---
 .../ast/ast-messages-order.cpp                | 19 +++-----
 src/spb-proto-compiler/ast/ast-types.cpp      | 20 +++-----
 src/spb-proto-compiler/ast/ast-types.h        | 48 +++++++++++++++++++
 3 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7b68b9b..f890200 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -272,19 +272,9 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
 }
 
 [[nodiscard]]
-auto resolve_from_import(const proto_file &import, const proto_field &field) -> bool
+auto resolve_from_file(const proto_file &file, const proto_file &import, const proto_field &field) -> bool
 {
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
-
-    return false;
+    return resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
 }
 
 [[nodiscard]]
@@ -293,9 +283,12 @@ auto resolve_from_imports(const search_ctx &self, const proto_field &field, size
     if (type_part > 0)
         return false;
 
+    if (resolve_from_file(self.state.file, self.state.file, field))
+        return true;
+
     for (const auto &import : self.state.file.imports)
     {
-        if (resolve_from_import(import, field))
+        if (resolve_from_file(self.state.file, import, field))
             return true;
     }
 
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..bd0685a 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -8,6 +8,7 @@
 * "LICENSE" at the root of this distribution.                               *
 \***************************************************************************/
 
+#include "ast-types.h"
 #include "ast/proto-oneof.h"
 
 #include "../dumper/header.h"
@@ -252,20 +253,10 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return resolve_type(*self.p_parent, field, type_part).first;
 }
 
-[[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field)
+[[nodiscard]] auto resolve_from_file(const proto_file &file, const proto_file &import, const proto_field &field)
     -> proto_field::Type
 {
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
-
-    return proto_field::Type::NONE;
+    return resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
 }
 
 [[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
@@ -274,9 +265,12 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     if (type_part > 0)
         return proto_field::Type::NONE;
 
+    if (const auto type = resolve_from_file(self.file, self.file, field); type)
+        return type;
+
     for (const auto &import : self.file.imports)
     {
-        if (const auto type = resolve_from_import(import, field); type)
+        if (const auto type = resolve_from_file(self.file, import, field); type)
             return type;
     }
 
diff --git a/src/spb-proto-compiler/ast/ast-types.h b/src/spb-proto-compiler/ast/ast-types.h
index dac1d54..13c7368 100644
--- a/src/spb-proto-compiler/ast/ast-types.h
+++ b/src/spb-proto-compiler/ast/ast-types.h
@@ -12,10 +12,58 @@
 
 #include "ast/proto-field.h"
 #include "proto-file.h"
+#include <algorithm>
+#include <string_view>
 
 [[nodiscard]] auto is_scalar(const proto_field::Type &type) -> bool;
 [[nodiscard]] auto is_packed_array(const proto_file &file, const proto_field &field) -> bool;
 
+/**
+ * @brief resolve a type of a field in a package, the type name could be relative to any of the
+ *        packages which enclose the field
+ *
+ * @param scope package of the file with the field
+ * @param package searched package
+ * @param field field
+ * @param resolve function (package, field, type_part) which resolves the type
+ * @return result of resolve
+ */
+template <typename Resolve>
+[[nodiscard]] auto resolve_from_package(std::string_view scope, const proto_message &package,
+                                        const proto_field &field, const Resolve &resolve)
+    -> decltype(resolve(package, field, size_t(0)))
+{
+    const auto starts_with_part = [](std::string_view name, std::string_view prefix)
+    { return name.size() > prefix.size() && name.starts_with(prefix) && name[prefix.size()] == '.'; };
+
+    const auto package_name = package.name.proto_name;
+    const auto type_name    = field.type_name.proto_name;
+
+    for (;;)
+    {
+        if (scope == package_name)
+        {
+            if (const auto result = resolve(package, field, size_t(0)); result)
+                return result;
+        }
+        else if (scope.empty() || starts_with_part(package_name, scope))
+        {
+            const auto prefix = scope.empty() ? package_name : package_name.substr(scope.size() + 1);
+            if (starts_with_part(type_name, prefix))
+            {
+                const auto parts = size_t(std::count(prefix.begin(), prefix.end(), '.')) + 1;
+                if (const auto result = resolve(package, field, parts); result)
+                    return result;
+            }
+        }
+        if (scope.empty())
+            return {};
+
+        const auto dot_index = scope.rfind('.');
+        scope                = (dot_index == scope.npos) ? std::string_view() : scope.substr(0, dot_index);
+    }
+}
+
 /**
  * @brief resolve types in a proto file
  *
-- 
2.43.0


From 1a36fa432d8b1f2616f5d57370f397bcedc047f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 33/66] fix: compiler: resolve a nested type which is named via
 its enclosing message

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index f890200..546655f 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -253,6 +253,15 @@ auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> boo
 [[nodiscard]]
 auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool;
 
+//- type is nested in the message and its name starts with the name of the message
+[[nodiscard]]
+auto resolve_from_enclosing_message(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
+{
+    return ctx.p_parent && !is_last_part(field, type_part) &&
+           get_type_part(field, type_part) == ctx.message.name.proto_name &&
+           resolve_from_message(ctx.message, field, type_part + 1);
+}
+
 [[nodiscard]]
 auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
 {
@@ -301,7 +310,8 @@ auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_
     if (is_scalar(field.type) || is_self(ctx, field, type_part))
         return true;
 
-    if (resolve_from_message(ctx.message, field, type_part))
+    if (resolve_from_message(ctx.message, field, type_part) ||
+        resolve_from_enclosing_message(ctx, field, type_part))
         return true;
 
     if (resolve_from_parent(ctx, field, type_part))
@@ -316,7 +326,8 @@ auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> boo
     if (is_scalar(field.type) || is_self(ctx, field, type_part))
         return true;
 
-    if (resolve_from_message(ctx.message, field, type_part))
+    if (resolve_from_message(ctx.message, field, type_part) ||
+        resolve_from_enclosing_message(ctx, field, type_part))
         return true;
 
     if (resolve_from_parent(ctx, field, type_part))
-- 
2.43.0


From a572eefaee3963d3fda5cadc266e109812cc264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 34/66] fix: compiler: report an output file which cannot be
 written

and do not leave a truncated output file behind when the compilation fails.
---
 src/spb-proto-compiler/main.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 1deb7eb..91fb83a 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -16,6 +16,9 @@
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <stdexcept>
+#include <string_view>
 #include <vector>
 
 namespace
@@ -69,6 +72,15 @@ auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::pat
     return {};
 }
 
+void write_file(const fs::path &file_path, std::string_view content)
+{
+    auto stream = std::ofstream(file_path);
+    stream << content;
+    stream.close();
+    if (!stream)
+        throw std::runtime_error(file_path.string() + ": cannot write the file");
+}
+
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
@@ -78,11 +90,14 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
 
     fs::create_directories(output_dir / rel_output_dir);
-    auto cpp_header_stream = std::ofstream(output_dir / rel_output_dir / output_cpp_header);
+    auto cpp_header_stream = std::ostringstream();
     dump_cpp_header(parsed_file, cpp_header_stream);
 
-    auto cpp_stream = std::ofstream(output_dir / rel_output_dir / output_cpp);
+    auto cpp_stream = std::ostringstream();
     dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
+
+    write_file(output_dir / rel_output_dir / output_cpp_header, cpp_header_stream.str());
+    write_file(output_dir / rel_output_dir / output_cpp, cpp_stream.str());
 }
 
 } // namespace
-- 
2.43.0


From bf1712dec276e7f82b562aa27c4197dda1502d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 35/66] fix: do not read a string via a misaligned pointer of a
 different type

---
 include/spb/utf8.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..681132e 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,18 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From 9cd5d2461754d30d85d8ed962d7306e90f1b249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 36/66] fix: do not overflow the limits of a wide bitfield

---
 include/spb/bits.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..b6d91e8 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -27,8 +27,8 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    const auto max = int64_t((UINT64_MAX >> (64 - bits)) >> 1);
+    const auto min = -max - 1;
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -37,8 +37,9 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
 static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t bits)
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
+    assert(bits > 0);
 
-    decltype(value) max = (1LL << bits) - 1;
+    const auto max = UINT64_MAX >> (64 - bits);
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From 986c63e94aa92c06a7df5e22bd4fd6bfe1470d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 37/66] fix: pb: limit the depth of nested messages

Deeply nested data could overflow the stack.
---
 include/spb/pb/deserialize.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 9e25bad..1e0a5c2 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -29,10 +29,23 @@
 namespace spb::pb::detail
 {
 
+//- maximum depth of nested fields, it protects the stack from malicious data
+//- (GPB has limit of 100 nested messages)
+static constexpr uint32_t max_depth = 256;
+
+[[nodiscard]] inline auto next_depth_or_throw(uint32_t depth) -> uint32_t
+{
+    if (depth >= max_depth) [[unlikely]]
+        throw std::runtime_error("message is too deep");
+
+    return depth + 1;
+}
+
 struct istream_reader
 {
     size_t bytes_left;
     size_t consumed_bytes = 0;
+    uint32_t depth        = 0;
     spb::io::reader on_read;
 
     istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max()) noexcept
@@ -101,7 +114,9 @@ struct istream_reader
 
         bytes_left -= sub_size;
         consumed_bytes += sub_size;
-        return istream_reader(on_read, sub_size);
+        auto result  = istream_reader(on_read, sub_size);
+        result.depth = next_depth_or_throw(depth);
+        return result;
     }
 
     void skip_or_throw(size_t size)
@@ -120,6 +135,7 @@ struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth = 0;
 
     istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end)
     {
@@ -174,7 +190,9 @@ struct istream_buffer
 
         const auto sub_start = p_start;
         p_start += sub_size;
-        return istream_buffer(sub_start, sub_size);
+        auto result  = istream_buffer(sub_start, sub_size);
+        result.depth = next_depth_or_throw(depth);
+        return result;
     }
 
     void skip_or_throw(size_t size)
-- 
2.43.0


From 75623d3163e8cbec8ae087a8ccd4f5f4ac494449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 38/66] fix: json: limit the depth of nested values

Deeply nested data could overflow the stack.
---
 include/spb/json/deserialize.hpp | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index b270f57..febf3b9 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -109,10 +109,15 @@ template <spb::detail::proto_field_bytes T> void clear(T &container)
     }
 }
 
+//- maximum depth of nested values, it protects the stack from malicious data
+//- (GPB has limit of 100 nested messages)
+static constexpr uint32_t max_depth = 256;
+
 struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    uint32_t depth = 0;
 
     istream_buffer(const void *start, const void *end) noexcept
         : p_start((uint8_t *)start), p_end((uint8_t *)end)
@@ -206,6 +211,11 @@ struct istream_reader
     spb::io::buffered_reader reader;
     size_t m_consumed_size = 0;
 
+  public:
+    uint32_t depth = 0;
+
+  private:
+
     void consume_bytes(size_t size)
     {
         m_consumed_size += size;
@@ -312,6 +322,26 @@ struct istream_reader
     }
 };
 
+//- keeps the depth of nested values while it is alive
+template <typename Stream> struct nested_value
+{
+    Stream &stream;
+
+    explicit nested_value(Stream &stream) : stream(stream)
+    {
+        if (stream.depth >= max_depth) [[unlikely]]
+            throw std::runtime_error("json is too deep");
+
+        ++stream.depth;
+    }
+    nested_value(const nested_value &)            = delete;
+    nested_value &operator=(const nested_value &) = delete;
+    ~nested_value()
+    {
+        --stream.depth;
+    }
+};
+
 [[nodiscard]] bool eof(const auto &stream)
 {
     return stream.current_char() == -1;
@@ -782,6 +812,8 @@ void ignore_key_and_value(auto &stream)
 
 void ignore_object(auto &stream)
 {
+    const auto nested = nested_value(stream);
+
     //- '{' was already checked by caller
     stream.consume_current_char(true);
 
@@ -801,6 +833,8 @@ void ignore_object(auto &stream)
 
 void ignore_array(auto &stream)
 {
+    const auto nested = nested_value(stream);
+
     //- '[' was already checked by caller
     stream.consume_current_char(true);
 
@@ -873,6 +907,8 @@ void deserialize_variant(auto &stream, T &variant)
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_message auto &value)
 {
+    const auto nested = nested_value(stream);
+
     if (!stream.consume_and_skip_white_space('{')) [[unlikely]]
         throw std::runtime_error("expecting '{'");
 
-- 
2.43.0


From 71103e5a53035970a331a52564a8421d4bd5b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 39/66] fix: a string container without append is resizable

std::vector<char> was handled as a fixed size string, so every non empty
string of such a field was rejected
---
 include/spb/concepts.h           | 2 +-
 include/spb/json/deserialize.hpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/spb/concepts.h b/include/spb/concepts.h
index 84572a2..d216a9a 100644
--- a/include/spb/concepts.h
+++ b/include/spb/concepts.h
@@ -65,7 +65,7 @@ concept proto_field_string = container<T> && std::is_same_v<typename std::decay_
 
 template <class T>
 concept proto_field_string_resizable = proto_field_string<T> && requires(T obj) {
-    { obj.append("1", 1) };
+    { obj.resize(1) };
     { obj.clear() };
 };
 
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index febf3b9..7c6648e 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -528,10 +528,16 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         if constexpr (attributes.max_size)
             check_size(value.size() + size, attributes.max_size);
 
-        if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
+        if constexpr (requires { value.append(str, size); })
         {
             value.append(str, size);
         }
+        else if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
+        {
+            const auto old_size = value.size();
+            value.resize(old_size + size);
+            memcpy(value.data() + old_size, str, size);
+        }
         else
         {
             if (auto space_left = value.size() - index; size <= space_left) [[likely]]
-- 
2.43.0


From 8abac391bb2eebb380da3c0c4a9f7aa54b2f569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 40/66] fix: compiler: accept the nanopb option max_count

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 97201da..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From 557b585c43301cb228ce1c2e5ce5148f1417df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 41/66] fix: pb: do not allocate memory for data which a reader
 does not have

---
 include/spb/pb/deserialize.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1e0a5c2..de52ae3 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -522,6 +522,21 @@ void deserialize(auto &stream, Container &p_value, wire_type type)
     deserialize<mode>(stream, value, type);
 }
 
+void read_resizable_or_throw(auto &stream, auto &value)
+{
+    //- the size is not trusted, so do not allocate (much) more than the data which are really available
+    static constexpr size_t max_block_size = 64 * 1024;
+
+    auto size = size_t(0);
+    do
+    {
+        const auto block_size = std::min(stream.size(), max_block_size);
+        value.resize(size + block_size);
+        stream.read_exact_or_throw(value.data() + size, block_size);
+        size += block_size;
+    } while (!stream.empty());
+}
+
 template <serialize_mode mode>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire_type type)
 {
@@ -531,14 +546,15 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 
     if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_resizable_or_throw(stream, value);
     }
     else
     {
         if (value.size() != stream.size()) [[unlikely]]
             throw std::runtime_error("invalid string size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -562,14 +578,15 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 
     if constexpr (spb::detail::proto_field_bytes_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_resizable_or_throw(stream, value);
     }
     else
     {
         if (stream.size() != value.size()) [[unlikely]]
             throw std::runtime_error("invalid bytes size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
 }
 
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
-- 
2.43.0


From dd02652bb48bf181dbc1fd8d09f4c3ff33379035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 42/66] fix: compiler: resolve a nested type via a qualified
 name of an enclosing message

---
 .../ast/ast-messages-order.cpp                | 67 ++++++++++++-------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 546655f..b0adb5a 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -23,6 +23,8 @@
 namespace
 {
 
+struct search_ctx;
+
 struct search_state
 {
     enum resolve_mode
@@ -37,6 +39,8 @@ struct search_state
     resolve_mode mode        = dependencies_only;
     size_t resolved_messages = 0;
     const proto_file &file;
+    //- message whose fields are being resolved
+    const search_ctx *p_current = nullptr;
 };
 
 /**
@@ -193,14 +197,32 @@ auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
     return false;
 }
 
+//- nested types of an enclosing message could be used before the message is complete
+[[nodiscard]]
+auto is_enclosing_message(const search_state &state, const proto_message &message) -> bool
+{
+    for (const auto *p_ctx = state.p_current; p_ctx; p_ctx = p_ctx->p_parent)
+    {
+        if (&p_ctx->message == &message)
+            return true;
+    }
+    return false;
+}
+
 [[nodiscard]]
-auto get_sub_message(const proto_message &message, const proto_field &field, size_t type_part)
-    -> const proto_message *
+auto get_sub_message(const search_state &state, const proto_message &message, const proto_field &field,
+                     size_t type_part) -> const proto_message *
 {
     const auto type_name = get_type_part(field, type_part);
-    const auto index     = std::find_if(
-        message.messages.begin(), message.messages.end(), [type_name](const auto &sub_message) -> bool
-        { return type_name == sub_message.name.proto_name && sub_message.resolved > 0; });
+    const auto last_part = is_last_part(field, type_part);
+    const auto index =
+        std::find_if(message.messages.begin(), message.messages.end(),
+                     [&](const auto &sub_message) -> bool
+                     {
+                         return type_name == sub_message.name.proto_name &&
+                                (sub_message.resolved > 0 ||
+                                 (!last_part && is_enclosing_message(state, sub_message)));
+                     });
     return (index != message.messages.end()) ? &*index : nullptr;
 }
 
@@ -231,17 +253,18 @@ auto is_enum(const proto_message &message, const proto_field &field, size_t type
 }
 
 [[nodiscard]]
-auto resolve_from_message(const proto_message &message, const proto_field &field, size_t type_part) -> bool
+auto resolve_from_message(const search_state &state, const proto_message &message, const proto_field &field,
+                          size_t type_part) -> bool
 {
     if (const auto type = is_enum(message, field, type_part); type)
         return type;
 
-    if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
+    if (const auto *sub_message = get_sub_message(state, message, field, type_part); sub_message)
     {
         if (is_last_part(field, type_part))
             return true;
 
-        return resolve_from_message(*sub_message, field, type_part + 1);
+        return resolve_from_message(state, *sub_message, field, type_part + 1);
     }
 
     return false;
@@ -253,15 +276,6 @@ auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> boo
 [[nodiscard]]
 auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool;
 
-//- type is nested in the message and its name starts with the name of the message
-[[nodiscard]]
-auto resolve_from_enclosing_message(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
-{
-    return ctx.p_parent && !is_last_part(field, type_part) &&
-           get_type_part(field, type_part) == ctx.message.name.proto_name &&
-           resolve_from_message(ctx.message, field, type_part + 1);
-}
-
 [[nodiscard]]
 auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
 {
@@ -281,9 +295,12 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
 }
 
 [[nodiscard]]
-auto resolve_from_file(const proto_file &file, const proto_file &import, const proto_field &field) -> bool
+auto resolve_from_file(const search_state &state, const proto_file &import, const proto_field &field) -> bool
 {
-    return resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
+    return resolve_from_package(
+        state.file.package.name.proto_name, import.package, field,
+        [&state](const proto_message &message, const proto_field &message_field, size_t type_part)
+        { return resolve_from_message(state, message, message_field, type_part); });
 }
 
 [[nodiscard]]
@@ -292,12 +309,12 @@ auto resolve_from_imports(const search_ctx &self, const proto_field &field, size
     if (type_part > 0)
         return false;
 
-    if (resolve_from_file(self.state.file, self.state.file, field))
+    if (resolve_from_file(self.state, self.state.file, field))
         return true;
 
     for (const auto &import : self.state.file.imports)
     {
-        if (resolve_from_file(self.state.file, import, field))
+        if (resolve_from_file(self.state, import, field))
             return true;
     }
 
@@ -310,8 +327,7 @@ auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_
     if (is_scalar(field.type) || is_self(ctx, field, type_part))
         return true;
 
-    if (resolve_from_message(ctx.message, field, type_part) ||
-        resolve_from_enclosing_message(ctx, field, type_part))
+    if (resolve_from_message(ctx.state, ctx.message, field, type_part))
         return true;
 
     if (resolve_from_parent(ctx, field, type_part))
@@ -326,8 +342,7 @@ auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> boo
     if (is_scalar(field.type) || is_self(ctx, field, type_part))
         return true;
 
-    if (resolve_from_message(ctx.message, field, type_part) ||
-        resolve_from_enclosing_message(ctx, field, type_part))
+    if (resolve_from_message(ctx.state, ctx.message, field, type_part))
         return true;
 
     if (resolve_from_parent(ctx, field, type_part))
@@ -344,6 +359,8 @@ void resolve_message_fields(search_ctx &ctx)
     if (ctx.message.resolved > 0)
         return;
 
+    ctx.state.p_current = &ctx;
+
     for (auto &field : ctx.message.fields)
     {
         if (!resolve_field(ctx, field, 0))
-- 
2.43.0


From 6319222e520f759d63708967cdaf21924478c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 43/66] fix: compiler: the innermost scope decides which type
 is meant

---
 src/spb-proto-compiler/ast/ast-types.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index bd0685a..be46d53 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -286,6 +286,10 @@ auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_
     if (const auto type = resolve_from_message(self.message, field, type_part); type)
         return {type, proto_field::BitType::NONE};
 
+    //- the innermost scope with the first part of the name decides
+    if (!is_last_part(field, type_part) && get_sub_message(self.message, field, type_part))
+        throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
+
     if (const auto type = resolve_from_parent(self, field, type_part); type)
         return {type, proto_field::BitType::NONE};
 
-- 
2.43.0


From 71a1880a9dff08abfa3ab3eb0d440e03d9047863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 44/66] fix: compiler: do not look in outer scopes for a type
 which an inner scope declares

---
 .../ast/ast-messages-order.cpp                | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index b0adb5a..e0a5454 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -142,9 +142,24 @@ auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part)
     case proto_field::Label::REPEATED:
     case proto_field::Label::PTR:
         return true;
-    default:
-        return false;
+    case proto_field::Label::NONE:
+    case proto_field::Label::OPTIONAL:
+        throw_parse_error(ctx.state.file, ctx.message.name.proto_name,
+                          "Field '" + std::string(field.name.proto_name) + "' cannot be self-referencing");
     }
+
+    return false;
+}
+
+//- message declares the first part of the type name, so the type cannot be in any of the outer scopes
+[[nodiscard]]
+auto is_declared_in(const proto_message &message, const proto_field &field) -> bool
+{
+    const auto is_type = [type_name = get_type_part(field, 0)](const auto &type) -> bool
+    { return type_name == type.name.proto_name; };
+
+    return std::any_of(message.messages.begin(), message.messages.end(), is_type) ||
+           std::any_of(message.enums.begin(), message.enums.end(), is_type);
 }
 
 /**
@@ -161,7 +176,7 @@ auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
     if (ctx.p_parent == nullptr)
         return false;
 
-    if (!is_last_part(field, type_part))
+    if (!is_last_part(field, type_part) || is_declared_in(ctx.message, field))
         return false;
 
     for (const auto &message : ctx.p_parent->message.messages)
@@ -279,7 +294,7 @@ auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_
 [[nodiscard]]
 auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
 {
-    if (!self.p_parent || type_part > 0)
+    if (!self.p_parent || type_part > 0 || is_declared_in(self.message, field))
         return false;
 
     return resolve_field(*self.p_parent, field, type_part);
@@ -288,7 +303,7 @@ auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type
 [[nodiscard]]
 auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
 {
-    if (!self.p_parent || type_part > 0)
+    if (!self.p_parent || type_part > 0 || is_declared_in(self.message, field))
         return false;
 
     return resolve_field(*self.p_parent, field, type_part);
@@ -306,7 +321,7 @@ auto resolve_from_file(const search_state &state, const proto_file &import, cons
 [[nodiscard]]
 auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
 {
-    if (type_part > 0)
+    if (self.p_parent || type_part > 0 || is_declared_in(self.message, field))
         return false;
 
     if (resolve_from_file(self.state, self.state.file, field))
-- 
2.43.0


From 6b7f5679b947f7861ac6707e75b2cfd563923d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 45/66] fix: do not abort on JSON names of 256 or more
 characters

---
 include/spb/json/deserialize.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 7c6648e..182fc76 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -393,8 +393,6 @@ void ignore_string(auto &stream)
 auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
     -> std::string_view
 {
-    assert(max_size < io::buffered_reader::BUFFER_SIZE);
-
     if (!stream.consume('"')) [[unlikely]]
         throw std::runtime_error(R"(expecting '"')");
 
-- 
2.43.0


From a359428091dc9ec0592762c62101a5f606fc0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 46/66] fix: reject field numbers which are out of range

---
 src/spb-proto-compiler/parser/parser.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f68a0cc..88e5bde 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -139,6 +139,20 @@ template <int_or_float T> auto parse_number(spb::char_stream &stream) -> T
     stream.throw_parse_error("expecting number");
 }
 
+//- field numbers are 1 .. 2^29 - 1
+auto parse_field_number(spb::char_stream &stream) -> decltype(proto_field::number)
+{
+    using number_type = decltype(proto_field::number);
+
+    constexpr auto max_field_number = number_type(0x1FFFFFFF);
+
+    const auto number = parse_number<number_type>(stream);
+    if (number < 1 || number > max_field_number)
+        stream.throw_parse_error("field number is out of range");
+
+    return number;
+}
+
 auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
 {
     const auto *start = stream.begin();
@@ -713,7 +727,7 @@ void parse_field(spb::char_stream &stream, proto_fields &fields, proto_comment &
     };
 
     new_field.name    = parse_ident(stream);
-    new_field.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_field::number)>(stream));
+    new_field.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
@@ -745,7 +759,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
         .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_full_ident(stream))},
     };
     new_map.name    = (consume_or_fail(stream, '>'), parse_ident(stream));
-    new_map.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_map::number)>(stream));
+    new_map.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
@@ -770,7 +784,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     auto new_field = proto_field{.type_name = parse_full_ident(stream)};
 
     new_field.name    = parse_ident(stream);
-    new_field.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_field::number)>(stream));
+    new_field.number  = (consume_or_fail(stream, '='), parse_field_number(stream));
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
-- 
2.43.0


From fc8323e4990975dc8f8f3b719adef61193920428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 47/66] fix: escape C++ keywords in default values of enums

---
 src/spb-proto-compiler/dumper/header.cpp |  3 ++-
 src/spb-proto-compiler/parser/parser.cpp | 25 ++++++++++++++++--------
 src/spb-proto-compiler/parser/parser.h   |  7 +++++++
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..4ad6dbf 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -378,7 +378,8 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
 
     if (field.type == proto_field::Type::ENUM)
     {
-        stream << " = " << field.type_name.get_name() << "::" << default_value;
+        stream << " = " << field.type_name.get_name() << "::"
+               << to_cpp_ident(default_value).get_name();
     }
     else if (field.type == proto_field::Type::STRING &&
              (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 88e5bde..a5ad993 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -249,7 +249,9 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return result;
 }
 
-[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+} // namespace
+
+auto to_cpp_ident(std::string_view name) -> cpp_ident
 {
     static constexpr auto cpp_reserved_keywords = std::array<std::string_view, 92>{
         "alignas",     "alignof",   "and",        "and_eq",    "asm",      "auto",         "bitand",
@@ -267,6 +269,19 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
         "using",       "virtual",   "void",       "volatile",  "wchar_t",  "while",        "xor",
         "xor_eq"};
 
+    for (const auto keyword : cpp_reserved_keywords)
+    {
+        if (keyword == name)
+            return cpp_ident{.proto_name = name, .cpp_name = std::string(name) + "_"};
+    }
+
+    return cpp_ident{.proto_name = name};
+}
+
+namespace
+{
+[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+{
     const auto *start = stream.begin();
 
     if (isalpha(stream.current_char()) == 0)
@@ -287,13 +302,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     if (skip_last_white_space)
         stream.consume_space();
 
-    for (const auto keyword : cpp_reserved_keywords)
-    {
-        if (keyword == result)
-            return cpp_ident{.proto_name = result, .cpp_name = std::string(result) + "_"};
-    }
-
-    return cpp_ident{.proto_name = result};
+    return to_cpp_ident(result);
 }
 
 [[nodiscard]] auto parse_full_ident(spb::char_stream &stream) -> cpp_ident
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..50b1a3b 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -27,6 +27,13 @@
 [[nodiscard]] auto cpp_file_name_from_proto(const std::filesystem::path &proto_file_path,
                                             std::string_view extension) -> std::filesystem::path;
 
+/**
+ * @brief returns C++ name of an identifier (C++ keywords are escaped)
+ *
+ * @param name proto name
+ */
+[[nodiscard]] auto to_cpp_ident(std::string_view name) -> cpp_ident;
+
 /**
  * @brief parse proto file
  *
-- 
2.43.0


From d393b160addeba3b2ff64509cf1db5c56b8cbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 48/66] fix: default values of float fields which are integers,
 inf or nan

---
 src/spb-proto-compiler/dumper/header.cpp | 34 ++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 4ad6dbf..2529fa0 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -37,6 +37,7 @@ struct std_includes
     bool variant;
     bool optional;
     bool memory;
+    bool limits;
 };
 
 void dump_comment(std::ostream &stream, const proto_comment &comment)
@@ -370,6 +371,29 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
            << " " << map.name.get_name() << ";\n";
 }
 
+void dump_default_float(std::ostream &stream, const proto_field &field, std::string_view value)
+{
+    const auto is_float = field.type == proto_field::Type::FLOAT;
+
+    auto number = value;
+    if (number.starts_with('-'))
+        number.remove_prefix(1);
+
+    if (number == "inf" || number == "nan")
+    {
+        stream << value.substr(0, value.size() - number.size()) << "std::numeric_limits<"
+               << (is_float ? "float" : "double") << ">::"
+               << (number == "inf" ? "infinity()" : "quiet_NaN()");
+        return;
+    }
+
+    stream << value;
+    if (number.find_first_not_of("0123456789") == std::string_view::npos)
+        stream << ".0";
+
+    stream << type_literal_suffix(field.type);
+}
+
 void dump_default_value(std::ostream &stream, const proto_field &field)
 {
     auto default_value = field.attributes.default_;
@@ -386,6 +410,11 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
     {
         stream << " = \"" << default_value << "\"";
     }
+    else if (field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE)
+    {
+        stream << " = ";
+        dump_default_float(stream, field, default_value);
+    }
     else
     {
         stream << " = " << default_value << type_literal_suffix(field.type);
@@ -450,6 +479,9 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     const auto type  = add_label_type(ctype, field, message, file);
 
     get_std_includes(ctype, type, result);
+
+    result.limits |= (field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE) &&
+                     (field.attributes.default_.ends_with("inf") || field.attributes.default_.ends_with("nan"));
 }
 
 void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
@@ -596,6 +628,8 @@ void get_std_includes(cpp_includes &includes, const proto_file &file)
         includes.insert("<vector>");
     if (std_includes.variant)
         includes.insert("<variant>");
+    if (std_includes.limits)
+        includes.insert("<limits>");
 }
 
 void dump_cpp_definitions(const proto_file &file, std::ostream &stream)
-- 
2.43.0


From 2f637f1a248f2345fc3c2769338fdde70c88a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 49/66] fix: hexadecimal numbers in options

---
 src/spb-proto-compiler/dumper/header.cpp |  8 +++++++-
 src/spb-proto-compiler/parser/parser.cpp | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 2529fa0..52d6049 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -388,7 +388,13 @@ void dump_default_float(std::ostream &stream, const proto_field &field, std::str
     }
 
     stream << value;
-    if (number.find_first_not_of("0123456789") == std::string_view::npos)
+
+    const auto is_int = number.find_first_not_of("0123456789") == std::string_view::npos;
+    const auto is_hex = number.starts_with("0x") || number.starts_with("0X");
+    if (is_hex || (is_int && number.size() > 1 && number.starts_with('0')))
+        return;
+
+    if (is_int)
         stream << ".0";
 
     stream << type_literal_suffix(field.type);
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index a5ad993..3738687 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -156,8 +156,21 @@ auto parse_field_number(spb::char_stream &stream) -> decltype(proto_field::numbe
 auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
 {
     const auto *start = stream.begin();
-    auto number       = double();
-    auto result       = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
+
+    const auto *digits = start + (*start == '-' ? 1 : 0);
+    if (stream.end() - digits > 2 && digits[0] == '0' && (digits[1] == 'x' || digits[1] == 'X'))
+    {
+        auto hex_number = uint64_t();
+        auto hex_result = spb_std_emu::from_chars(digits + 2, stream.end(), hex_number, 16);
+        if (hex_result.ec != std::errc{})
+            stream.throw_parse_error("expecting number");
+
+        stream.skip_to(hex_result.ptr);
+        return {start, static_cast<size_t>(hex_result.ptr - start)};
+    }
+
+    auto number = double();
+    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
     if (result.ec == std::errc{}) [[likely]]
     {
         stream.skip_to(result.ptr);
-- 
2.43.0


From 17001f34e1a82f38f568c655f6fb7876a95974d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 50/66] fix: default values of bytes fields and of strings with
 quotes or escape sequences

---
 src/spb-proto-compiler/dumper/header.cpp | 93 ++++++++++++++++++++++--
 src/spb-proto-compiler/parser/parser.cpp |  4 +
 2 files changed, 92 insertions(+), 5 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 52d6049..f41362d 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -18,6 +18,7 @@
 #include "parser/parser.h"
 #include <set>
 #include <spb/json/deserialize.hpp>
+#include <spb/utf8.h>
 #include <string>
 #include <string_view>
 
@@ -400,7 +401,84 @@ void dump_default_float(std::ostream &stream, const proto_field &field, std::str
     stream << type_literal_suffix(field.type);
 }
 
-void dump_default_value(std::ostream &stream, const proto_field &field)
+//- replaces escape sequences of a string literal
+auto unescape(std::string_view literal) -> std::string
+{
+    static constexpr auto simple_escapes = "a\ab\bf\fn\nr\rt\tv\v"sv;
+
+    auto result    = std::string();
+    auto get_digit = [&](size_t pos, std::string_view digits)
+    {
+        const auto c = pos < literal.size() ? char(std::tolower((unsigned char) literal[pos])) : ' ';
+        return digits.find(c);
+    };
+    auto add_number = [&](size_t pos, size_t max_size, std::string_view digits, bool is_unicode = false)
+    {
+        auto number = uint32_t();
+        auto size   = size_t();
+        for (; size < max_size && get_digit(pos + size, digits) != digits.npos; size++)
+        {
+            number = number * uint32_t(digits.size()) + uint32_t(get_digit(pos + size, digits));
+        }
+
+        char utf8[4] = {char(number)};
+        result.append(utf8, is_unicode ? spb::detail::utf8::encode_point(number, utf8) : 1);
+        return size;
+    };
+
+    for (size_t i = 0; i < literal.size(); i++)
+    {
+        if (literal[i] != '\\' || i + 1 == literal.size())
+        {
+            result += literal[i];
+            continue;
+        }
+
+        i++;
+        if (get_digit(i, "01234567") != std::string_view::npos)
+            i += add_number(i, 3, "01234567") - 1;
+        else if (literal[i] == 'x' || literal[i] == 'X')
+            i += add_number(i + 1, 2, "0123456789abcdef");
+        else if (literal[i] == 'u' || literal[i] == 'U')
+            i += add_number(i + 1, literal[i] == 'u' ? 4 : 8, "0123456789abcdef", true);
+        else if (auto pos = simple_escapes.find(literal[i]); pos != std::string_view::npos && pos % 2 == 0)
+            result += simple_escapes[pos + 1];
+        else
+            result += literal[i];
+    }
+
+    return result;
+}
+
+void dump_default_string(std::ostream &stream, std::string_view literal)
+{
+    stream << '"';
+    for (const auto c : unescape(literal))
+    {
+        const auto byte = (unsigned char) c;
+        if (c == '"' || c == '\\')
+            stream << '\\' << c;
+        else if (byte < 0x20 || byte == 0x7f)
+            stream << '\\' << char('0' + byte / 64) << char('0' + byte / 8 % 8) << char('0' + byte % 8);
+        else
+            stream << c;
+    }
+    stream << '"';
+}
+
+void dump_default_bytes(std::ostream &stream, std::string_view literal)
+{
+    auto separator = "{"sv;
+    for (const auto c : unescape(literal))
+    {
+        stream << separator << "std::byte{" << unsigned((unsigned char) c) << '}';
+        separator = ", ";
+    }
+    stream << '}';
+}
+
+void dump_default_value(std::ostream &stream, const proto_field &field, const proto_message &message,
+                        const proto_file &file)
 {
     auto default_value = field.attributes.default_;
     if (default_value.empty())
@@ -411,10 +489,15 @@ void dump_default_value(std::ostream &stream, const proto_field &field)
         stream << " = " << field.type_name.get_name() << "::"
                << to_cpp_ident(default_value).get_name();
     }
-    else if (field.type == proto_field::Type::STRING &&
-             (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
+    else if (field.type == proto_field::Type::STRING)
+    {
+        stream << " = ";
+        dump_default_string(stream, default_value);
+    }
+    else if (field.type == proto_field::Type::BYTES)
     {
-        stream << " = \"" << default_value << "\"";
+        stream << " = " << convert_to_ctype(file, field, message);
+        dump_default_bytes(stream, default_value);
     }
     else if (field.type == proto_field::Type::FLOAT || field.type == proto_field::Type::DOUBLE)
     {
@@ -439,7 +522,7 @@ void dump_message_field(std::ostream &stream, const proto_field &field, const pr
     dump_comment(stream, field.comment);
     dump_deprecated_attribute(stream, field);
     dump_field_type_and_name(stream, field, message, file);
-    dump_default_value(stream, field);
+    dump_default_value(stream, field, message, file);
     stream << ";\n";
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3738687..d31d57c 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -250,6 +250,10 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     auto current      = stream.current_char();
     while ((current != 0) && current != c)
     {
+        //- escaped char
+        if (current == '\\')
+            stream.consume_current_char(false);
+
         stream.consume_current_char(false);
         current = stream.current_char();
     }
-- 
2.43.0


From 0d2a34be693e3175541e0ba9a4bf7f607c61ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 51/66] fix: white space inside of numbers is not allowed

---
 src/spb-proto-compiler/parser/parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index d31d57c..90b0df3 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -90,15 +90,22 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
 {
     number    = {};
     auto base = 10;
-    if (stream.consume('0'))
+    if (stream.current_char() == '0')
     {
         base = 8;
-        if (stream.consume('x') || stream.consume('X'))
+        stream.consume_current_char(false);
+        if (stream.current_char() == 'x' || stream.current_char() == 'X')
+        {
             base = 16;
+            stream.consume_current_char(false);
+        }
 
         const auto c = static_cast<unsigned char>(stream.current_char());
         if (base == 8 && !::isdigit(c))
+        {
+            stream.consume_space();
             return true;
+        }
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
     if (result.ec == std::errc{}) [[likely]]
-- 
2.43.0


From 56387702b9e369191b4ef9cec25acd9fe817efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 52/66] fix: negative hexadecimal and octal enum values

---
 src/spb-proto-compiler/parser/parser.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 90b0df3..9c08942 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -23,10 +23,12 @@
 #include <exception>
 #include <filesystem>
 #include <io/file.h>
+#include <limits>
 #include <parser/char_stream.h>
 #include <spb/to_from_chars.h>
 #include <stdexcept>
 #include <string_view>
+#include <type_traits>
 
 namespace
 {
@@ -88,8 +90,15 @@ concept int_or_float = std::integral<T> || std::floating_point<T>;
 
 auto consume_number(spb::char_stream &stream, std::integral auto &number) -> bool
 {
-    number    = {};
-    auto base = 10;
+    using number_type   = std::decay_t<decltype(number)>;
+    using unsigned_type = std::make_unsigned_t<number_type>;
+
+    number              = {};
+    auto base           = 10;
+    const auto negative = std::is_signed_v<number_type> && stream.current_char() == '-';
+    if (negative)
+        stream.consume_current_char(false);
+
     if (stream.current_char() == '0')
     {
         base = 8;
@@ -107,9 +116,16 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
             return true;
         }
     }
-    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-    if (result.ec == std::errc{}) [[likely]]
+    //- the sign precedes the base (-0x10, -010)
+    if (!::isxdigit(static_cast<unsigned char>(stream.current_char())))
+        return false;
+
+    auto magnitude = unsigned_type();
+    auto result    = spb_std_emu::from_chars(stream.begin(), stream.end(), magnitude, base);
+    const auto max = unsigned_type(std::numeric_limits<number_type>::max());
+    if (result.ec == std::errc{} && magnitude <= unsigned_type(max + (negative ? 1 : 0))) [[likely]]
     {
+        number = number_type(negative ? unsigned_type(0) - magnitude : magnitude);
         stream.skip_to(result.ptr);
         return true;
     }
-- 
2.43.0


From 20eae946effac767642b378c035f64a65cc4327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 53/66] fix: names of a file shorter than 16 characters were
 dangling

---
 src/spb-proto-compiler/ast/proto-file.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 7b6778f..6f01424 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -20,16 +20,38 @@
 #include "proto-syntax.h"
 #include <filesystem>
 #include <string>
+#include <string_view>
 #include <vector>
 
 struct proto_file;
 
+//- content of a file, AST refers into it, so it has to stay at the same place when the file is moved
+//- (a short std::string does not)
+class proto_file_content
+{
+    std::vector<char> m_data;
+
+  public:
+    proto_file_content() = default;
+    proto_file_content(std::string_view content) : m_data(content.begin(), content.end())
+    {
+    }
+    proto_file_content(const std::string &content) : proto_file_content(std::string_view(content))
+    {
+    }
+
+    operator std::string_view() const noexcept
+    {
+        return {m_data.data(), m_data.size()};
+    }
+};
+
 using proto_files = std::vector<proto_file>;
 
 struct proto_file
 {
     std::filesystem::path path;
-    std::string content;
+    proto_file_content content;
     proto_syntax syntax;
     proto_comment comment;
     proto_files imports;
-- 
2.43.0


From 9bbb3da033b0e558ae4a82dbafa700b02a388a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 54/66] fix: an empty path on the command line terminated the
 compiler

---
 src/spb-proto-compiler/main.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 91fb83a..8f99e78 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -103,6 +103,7 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
 } // namespace
 
 auto main(int argc, char *argv[]) -> int
+try
 {
     if (argc < 2)
     {
@@ -192,18 +193,15 @@ auto main(int argc, char *argv[]) -> int
         return 1;
     }
 
-    try
+    for (const auto &input_file : input_files)
     {
-        for (const auto &input_file : input_files)
-        {
-            process_file(input_file, import_paths, output_dir);
-        }
-    }
-    catch (const std::exception &e)
-    {
-        std::cerr << e.what() << '\n';
-        return 1;
+        process_file(input_file, import_paths, output_dir);
     }
 
     return 0;
-}
\ No newline at end of file
+}
+catch (const std::exception &e)
+{
+    std::cerr << e.what() << '\n';
+    return 1;
+}
-- 
2.43.0


From 650ca6668e7c6a3ef4f77db687f060dcec60405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 55/66] fix: parse every imported file only once

---
 .../ast/ast-messages-order.cpp                 |  2 +-
 src/spb-proto-compiler/ast/ast-types.cpp       |  2 +-
 src/spb-proto-compiler/ast/proto-file.h        |  4 +++-
 src/spb-proto-compiler/dumper/header.cpp       |  3 ++-
 src/spb-proto-compiler/parser/parser.cpp       | 18 ++++++++++--------
 src/spb-proto-compiler/parser/parser.h         |  7 +++++--
 6 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index e0a5454..fd3ca02 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -329,7 +329,7 @@ auto resolve_from_imports(const search_ctx &self, const proto_field &field, size
 
     for (const auto &import : self.state.file.imports)
     {
-        if (resolve_from_file(self.state, import, field))
+        if (resolve_from_file(self.state, *import, field))
             return true;
     }
 
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index be46d53..42670eb 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -270,7 +270,7 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 
     for (const auto &import : self.file.imports)
     {
-        if (const auto type = resolve_from_file(self.file, import, field); type)
+        if (const auto type = resolve_from_file(self.file, *import, field); type)
             return type;
     }
 
diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 6f01424..6642c44 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -19,6 +19,7 @@
 #include "proto-service.h"
 #include "proto-syntax.h"
 #include <filesystem>
+#include <memory>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -46,7 +47,8 @@ class proto_file_content
     }
 };
 
-using proto_files = std::vector<proto_file>;
+//- one file could be imported by several files
+using proto_files = std::vector<std::shared_ptr<proto_file>>;
 
 struct proto_file
 {
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index f41362d..3debcf3 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -101,8 +101,9 @@ void get_user_includes(cpp_includes &includes, const proto_file &file)
 
 void get_imports(cpp_includes &includes, const proto_file &file)
 {
-    for (const auto &import : file.imports)
+    for (const auto &p_import : file.imports)
     {
+        const auto &import = *p_import;
         if (file.attributes.exclude.contains(import.path.filename().string()))
             continue;
 
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 9c08942..c5233e0 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -445,13 +445,15 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
             const auto import_id        = fs::weakly_canonical(import_file_path).string();
-            if (!ctx.already_parsed.insert(import_id).second)
-                return;
-
-            file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
-                std::move(import_comment);
-            //- the same file could be imported by another file
-            ctx.already_parsed.erase(import_id);
+            const auto parsed           = ctx.already_parsed.emplace(import_id, nullptr);
+            auto &p_import              = parsed.first->second;
+            if (parsed.second)
+            {
+                p_import = std::make_shared<proto_file>(parse_proto_file(import_file_path, import_ctx));
+                p_import->comment = std::move(import_comment);
+            }
+            if (p_import)
+                file.imports.emplace_back(p_import);
         }
         catch (const std::runtime_error &)
         {
@@ -1128,7 +1130,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(fs::weakly_canonical(file_path).string());
+    already_parsed.emplace(fs::weakly_canonical(file_path).string(), nullptr);
     return parse_proto_file(file_path, ctx);
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index 50b1a3b..1335474 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -12,8 +12,10 @@
 
 #include "ast/proto-file.h"
 #include <filesystem>
-#include <set>
+#include <map>
+#include <memory>
 #include <span>
+#include <string>
 #include <string_view>
 
 /**
@@ -47,7 +49,8 @@ auto parse_proto_file(const std::filesystem::path &file_path,
                       const std::filesystem::path &base_dir = std::filesystem::current_path()) -> proto_file;
 
 namespace fs       = std::filesystem;
-using parsed_files = std::set<std::string>;
+//- path -> file, nullptr: the file is being parsed
+using parsed_files = std::map<std::string, std::shared_ptr<proto_file>>;
 
 struct parsing_ctx
 {
-- 
2.43.0


From d939f5b5673c70eb84a814ee140766e47075e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 56/66] fix: include path of a file imported from another
 directory, -I dir/ is the same as -I dir

---
 src/spb-proto-compiler/ast/proto-file.h  |  2 ++
 src/spb-proto-compiler/dumper/header.cpp |  5 ++++-
 src/spb-proto-compiler/main.cpp          | 26 +++++++++++++++++++-----
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 6642c44..7947bc6 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -53,6 +53,8 @@ using proto_files = std::vector<std::shared_ptr<proto_file>>;
 struct proto_file
 {
     std::filesystem::path path;
+    //- directory of the generated files, relative to the output directory
+    std::filesystem::path output_dir;
     proto_file_content content;
     proto_syntax syntax;
     proto_comment comment;
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 3debcf3..4428aa5 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -107,7 +107,10 @@ void get_imports(cpp_includes &includes, const proto_file &file)
         if (file.attributes.exclude.contains(import.path.filename().string()))
             continue;
 
-        includes.insert("\"" + cpp_file_name_from_proto(import.path, ".pb.h").string() + "\"");
+        //- the same directory is found in both cases
+        const auto header = cpp_file_name_from_proto(import.path, ".pb.h");
+        const auto path   = import.output_dir == file.output_dir ? header : import.output_dir / header;
+        includes.insert("\"" + path.generic_string() + "\"");
     }
 }
 
diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 8f99e78..2319eda 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -62,16 +62,31 @@ auto construct_path(fs::path::iterator begin, fs::path::iterator end) -> fs::pat
 
 auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::path> import_paths) -> fs::path
 {
-    for (const auto &import : import_paths)
+    const auto file = input_file.lexically_normal();
+    for (const auto &import_path : import_paths)
     {
-        const auto miss = std::mismatch(import.begin(), import.end(), input_file.begin(), input_file.end());
+        //- 'dir/' and 'dir/.' are the same directory as 'dir'
+        auto import = import_path.lexically_normal();
+        if (!import.has_filename() && import.has_relative_path())
+            import = import.parent_path();
+
+        const auto miss = std::mismatch(import.begin(), import.end(), file.begin(), file.end());
 
         if (miss.first == import.end())
-            return construct_path(miss.second, input_file.end());
+            return construct_path(miss.second, file.end());
     }
     return {};
 }
 
+void set_output_dir(proto_file &file, std::span<const fs::path> import_paths)
+{
+    file.output_dir = get_relative_output_dir(file.path, import_paths);
+    for (const auto &p_import : file.imports)
+    {
+        p_import->output_dir = get_relative_output_dir(p_import->path, import_paths);
+    }
+}
+
 void write_file(const fs::path &file_path, std::string_view content)
 {
     auto stream = std::ofstream(file_path);
@@ -84,10 +99,11 @@ void write_file(const fs::path &file_path, std::string_view content)
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
-    const auto parsed_file = parse_proto_file(input_file, import_paths);
+    auto parsed_file             = parse_proto_file(input_file, import_paths);
     const auto output_cpp_header = cpp_file_name_from_proto(input_file, ".pb.h");
     const auto output_cpp = cpp_file_name_from_proto(input_file, ".pb.cc");
-    const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
+    set_output_dir(parsed_file, import_paths);
+    const auto &rel_output_dir   = parsed_file.output_dir;
 
     fs::create_directories(output_dir / rel_output_dir);
     auto cpp_header_stream = std::ostringstream();
-- 
2.43.0


From b6080ff640a66052c71ff3e9f44a6703c6b5c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 57/66] fix: types of public imports were not visible

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 10 ++++++----
 src/spb-proto-compiler/ast/ast-types.cpp          | 13 ++++++++++++-
 src/spb-proto-compiler/ast/proto-file.h           |  2 ++
 src/spb-proto-compiler/parser/parser.cpp          |  4 +++-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index fd3ca02..cb79ac4 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -312,10 +312,12 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
 [[nodiscard]]
 auto resolve_from_file(const search_state &state, const proto_file &import, const proto_field &field) -> bool
 {
-    return resolve_from_package(
-        state.file.package.name.proto_name, import.package, field,
-        [&state](const proto_message &message, const proto_field &message_field, size_t type_part)
-        { return resolve_from_message(state, message, message_field, type_part); });
+    const auto resolve = [&state](const proto_message &message, const proto_field &message_field, size_t type_part)
+    { return resolve_from_message(state, message, message_field, type_part); };
+
+    return resolve_from_package(state.file.package.name.proto_name, import.package, field, resolve) ||
+           std::any_of(import.public_imports.begin(), import.public_imports.end(), [&](const auto &p_import)
+                       { return resolve_from_file(state, *p_import, field); });
 }
 
 [[nodiscard]]
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 42670eb..39d913d 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -256,7 +256,18 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 [[nodiscard]] auto resolve_from_file(const proto_file &file, const proto_file &import, const proto_field &field)
     -> proto_field::Type
 {
-    return resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
+    if (const auto type =
+            resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
+        type)
+        return type;
+
+    for (const auto &p_import : import.public_imports)
+    {
+        if (const auto type = resolve_from_file(file, *p_import, field); type)
+            return type;
+    }
+
+    return proto_field::Type::NONE;
 }
 
 [[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 7947bc6..f3d3751 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -59,6 +59,8 @@ struct proto_file
     proto_syntax syntax;
     proto_comment comment;
     proto_files imports;
+    //- imports which are visible in the files which import this one
+    proto_files public_imports;
     proto_message package;
     proto_extends extends;
     proto_options options;
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index c5233e0..f97dd8e 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -428,7 +428,7 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
 {
     // "import" [ "weak" | "public" ] strLit ";"
     consume_or_fail(stream, "import");
-    stream.consume("weak") || stream.consume("public");
+    const auto is_public   = !stream.consume("weak") && stream.consume("public");
     const auto import_name = parse_string_literal(stream);
     auto import_comment    = std::move(comment);
     consume_statement_end(stream, import_comment);
@@ -454,6 +454,8 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
             }
             if (p_import)
                 file.imports.emplace_back(p_import);
+            if (p_import && is_public)
+                file.public_imports.emplace_back(p_import);
         }
         catch (const std::runtime_error &)
         {
-- 
2.43.0


From 0cbc56dba028068f27d8f5544e778a99ff5dd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 58/66] fix: exponential time for ladders of public imports

---
 .../ast/ast-messages-order.cpp                | 32 +++++--------
 src/spb-proto-compiler/ast/ast-types.cpp      | 48 ++++++++++---------
 src/spb-proto-compiler/ast/ast-types.h        |  8 ++++
 3 files changed, 45 insertions(+), 43 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index cb79ac4..daab468 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -309,33 +309,23 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
     return resolve_field(*self.p_parent, field, type_part);
 }
 
-[[nodiscard]]
-auto resolve_from_file(const search_state &state, const proto_file &import, const proto_field &field) -> bool
-{
-    const auto resolve = [&state](const proto_message &message, const proto_field &message_field, size_t type_part)
-    { return resolve_from_message(state, message, message_field, type_part); };
-
-    return resolve_from_package(state.file.package.name.proto_name, import.package, field, resolve) ||
-           std::any_of(import.public_imports.begin(), import.public_imports.end(), [&](const auto &p_import)
-                       { return resolve_from_file(state, *p_import, field); });
-}
-
 [[nodiscard]]
 auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
 {
     if (self.p_parent || type_part > 0 || is_declared_in(self.message, field))
         return false;
 
-    if (resolve_from_file(self.state, self.state.file, field))
-        return true;
-
-    for (const auto &import : self.state.file.imports)
-    {
-        if (resolve_from_file(self.state, *import, field))
-            return true;
-    }
-
-    return false;
+    const auto &state  = self.state;
+    const auto resolve = [&state](const proto_message &message, const proto_field &message_field, size_t part)
+    { return resolve_from_message(state, message, message_field, part); };
+
+    const auto files = get_visible_files(state.file);
+    return std::any_of(files.begin(), files.end(),
+                       [&](const auto *p_file)
+                       {
+                           return resolve_from_package(state.file.package.name.proto_name, p_file->package, field,
+                                                       resolve);
+                       });
 }
 
 [[nodiscard]]
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 39d913d..d2017d5 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -253,35 +253,17 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return resolve_type(*self.p_parent, field, type_part).first;
 }
 
-[[nodiscard]] auto resolve_from_file(const proto_file &file, const proto_file &import, const proto_field &field)
-    -> proto_field::Type
-{
-    if (const auto type =
-            resolve_from_package(file.package.name.proto_name, import.package, field, resolve_from_message);
-        type)
-        return type;
-
-    for (const auto &p_import : import.public_imports)
-    {
-        if (const auto type = resolve_from_file(file, *p_import, field); type)
-            return type;
-    }
-
-    return proto_field::Type::NONE;
-}
-
 [[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
     -> proto_field::Type
 {
     if (type_part > 0)
         return proto_field::Type::NONE;
 
-    if (const auto type = resolve_from_file(self.file, self.file, field); type)
-        return type;
-
-    for (const auto &import : self.file.imports)
+    for (const auto *p_file : get_visible_files(self.file))
     {
-        if (const auto type = resolve_from_file(self.file, *import, field); type)
+        if (const auto type = resolve_from_package(self.file.package.name.proto_name, p_file->package, field,
+                                                   resolve_from_message);
+            type)
             return type;
     }
 
@@ -362,6 +344,28 @@ void resolve_types(const search_ctx &parent, proto_message &message)
 }
 } // namespace
 
+auto get_visible_files(const proto_file &file) -> std::vector<const proto_file *>
+{
+    auto result = std::vector<const proto_file *>{&file};
+
+    const auto add = [&result](const proto_files &imports)
+    {
+        for (const auto &p_import : imports)
+        {
+            if (std::find(result.begin(), result.end(), p_import.get()) == result.end())
+                result.push_back(p_import.get());
+        }
+    };
+
+    add(file.imports);
+    for (auto i = size_t(1); i < result.size(); i++)
+    {
+        add(result[i]->public_imports);
+    }
+
+    return result;
+}
+
 auto is_packed_array(const proto_file &file, const proto_field &field) -> bool
 {
     if (field.label != proto_field::Label::REPEATED)
diff --git a/src/spb-proto-compiler/ast/ast-types.h b/src/spb-proto-compiler/ast/ast-types.h
index 13c7368..9a8058e 100644
--- a/src/spb-proto-compiler/ast/ast-types.h
+++ b/src/spb-proto-compiler/ast/ast-types.h
@@ -14,6 +14,7 @@
 #include "proto-file.h"
 #include <algorithm>
 #include <string_view>
+#include <vector>
 
 [[nodiscard]] auto is_scalar(const proto_field::Type &type) -> bool;
 [[nodiscard]] auto is_packed_array(const proto_file &file, const proto_field &field) -> bool;
@@ -64,6 +65,13 @@ template <typename Resolve>
     }
 }
 
+/**
+ * @brief files with the types which are visible in a file: the file, its imports and the public
+ *        imports of these, every file only once
+ *
+ */
+[[nodiscard]] auto get_visible_files(const proto_file &file) -> std::vector<const proto_file *>;
+
 /**
  * @brief resolve types in a proto file
  *
-- 
2.43.0


From a382f83e6338379e087975644de5cadfb360d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 59/66] fix: a type of an imported file could be taken from
 another scope

Type names are looked up scope by scope in all visible files, and the generated
code refers to them with all packages: C++ sees the packages of all included
files, so a relative name could be another type.
---
 .../ast/ast-messages-order.cpp                |  15 +-
 src/spb-proto-compiler/ast/ast-types.cpp      | 134 ++++++++++++++----
 src/spb-proto-compiler/ast/ast-types.h        |  76 +++++-----
 3 files changed, 155 insertions(+), 70 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index daab468..7dd3900 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -315,17 +315,10 @@ auto resolve_from_imports(const search_ctx &self, const proto_field &field, size
     if (self.p_parent || type_part > 0 || is_declared_in(self.message, field))
         return false;
 
-    const auto &state  = self.state;
-    const auto resolve = [&state](const proto_message &message, const proto_field &message_field, size_t part)
-    { return resolve_from_message(state, message, message_field, part); };
-
-    const auto files = get_visible_files(state.file);
-    return std::any_of(files.begin(), files.end(),
-                       [&](const auto *p_file)
-                       {
-                           return resolve_from_package(state.file.package.name.proto_name, p_file->package, field,
-                                                       resolve);
-                       });
+    const auto &state = self.state;
+    return resolve_from_files(state.file, field,
+                              [&state](const proto_file &file, const proto_field &file_field, size_t part)
+                              { return resolve_from_message(state, file.package, file_field, part); });
 }
 
 [[nodiscard]]
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index d2017d5..b625229 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -18,6 +18,8 @@
 #include "spb/pb/wire-types.h"
 #include <algorithm>
 #include <array>
+#include <optional>
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -62,8 +64,21 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return type_name.substr(0, type_name.find('.'));
 }
 
+struct resolved_type
+{
+    proto_field::Type type        = proto_field::Type::NONE;
+    proto_field::BitType bit_type = proto_field::BitType::NONE;
+    //- C++ name with all packages, empty if `proto_field::type_name` is enough
+    std::string cpp_name = {};
+
+    explicit operator bool() const noexcept
+    {
+        return type != proto_field::Type::NONE;
+    }
+};
+
 [[nodiscard]] auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> std::pair<proto_field::Type, proto_field::BitType>;
+    -> resolved_type;
 
 [[nodiscard]] auto remove_bitfield(std::string_view type) -> std::string_view
 {
@@ -245,59 +260,81 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 }
 
 [[nodiscard]] auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> proto_field::Type
+    -> resolved_type
 {
     if (!self.p_parent || type_part > 0)
-        return proto_field::Type::NONE;
+        return {};
 
-    return resolve_type(*self.p_parent, field, type_part).first;
+    return resolve_type(*self.p_parent, field, type_part);
 }
 
-[[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> proto_field::Type
+/**
+ * @brief C++ name of a type in a file, C++ sees the packages of all included files, so a relative name
+ *        could be another type
+ *
+ * @param file file with the type
+ * @param field field
+ * @param type_part first part of the type name which is not a package
+ */
+[[nodiscard]] auto get_full_cpp_name(const proto_file &file, const proto_field &field, size_t type_part)
+    -> std::string
 {
-    if (type_part > 0)
-        return proto_field::Type::NONE;
-
-    for (const auto *p_file : get_visible_files(self.file))
+    auto type_name = std::string(field.type_name.get_name());
+    for (; type_part > 0; type_part--)
     {
-        if (const auto type = resolve_from_package(self.file.package.name.proto_name, p_file->package, field,
-                                                   resolve_from_message);
-            type)
-            return type;
+        type_name.erase(0, type_name.find("::") + 2);
     }
 
-    return proto_field::Type::NONE;
+    const auto package_name = file.package.name.get_name();
+    return (package_name.empty() ? "::" : "::" + std::string(package_name) + "::") + type_name;
 }
 
-auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
-    -> std::pair<proto_field::Type, proto_field::BitType>
+[[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
+    -> resolved_type
+{
+    if (type_part > 0)
+        return {};
+
+    return resolve_from_files(self.file, field,
+                              [](const proto_file &file, const proto_field &file_field, size_t part)
+                              {
+                                  auto result = resolved_type{
+                                      .type = resolve_from_message(file.package, file_field, part)};
+                                  if (result)
+                                      result.cpp_name = get_full_cpp_name(file, file_field, part);
+                                  return result;
+                              });
+}
+
+auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part) -> resolved_type
 {
     if (const auto type = get_scalar_type(self.file, field, type_part); type.first)
-        return type;
+        return {.type = type.first, .bit_type = type.second};
 
     if (const auto type = resolve_from_message(self.message, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
+        return {.type = type};
 
     //- the innermost scope with the first part of the name decides
     if (!is_last_part(field, type_part) && get_sub_message(self.message, field, type_part))
         throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
 
-    if (const auto type = resolve_from_parent(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
+    if (auto type = resolve_from_parent(self, field, type_part); type)
+        return type;
 
-    if (const auto type = resolve_from_imports(self, field, type_part); type)
-        return {type, proto_field::BitType::NONE};
+    if (auto type = resolve_from_imports(self, field, type_part); type)
+        return type;
 
     throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
 }
 
 void resolve_types(const search_ctx &self, proto_field &field)
 {
-    const auto [type, bit_type] = resolve_type(self, field, 0);
+    auto resolved = resolve_type(self, field, 0);
 
-    field.type     = type;
-    field.bit_type = bit_type;
+    field.type     = resolved.type;
+    field.bit_type = resolved.bit_type;
+    if (!resolved.cpp_name.empty())
+        field.type_name.cpp_name = std::move(resolved.cpp_name);
 }
 
 void resolve_types(const search_ctx &self, proto_map &map)
@@ -366,6 +403,51 @@ auto get_visible_files(const proto_file &file) -> std::vector<const proto_file *
     return result;
 }
 
+namespace
+{
+//- `name` without the enclosing `scope`
+[[nodiscard]] auto remove_scope(std::string_view scope, std::string_view name) -> std::optional<std::string_view>
+{
+    if (scope.empty())
+        return name;
+
+    if (name.size() > scope.size() && name.starts_with(scope) && name[scope.size()] == '.')
+        return name.substr(scope.size() + 1);
+
+    return {};
+}
+} // namespace
+
+auto get_package_parts(std::string_view scope, std::string_view package, std::string_view type_name)
+    -> std::optional<size_t>
+{
+    if (scope == package)
+        return size_t(0);
+
+    const auto prefix = remove_scope(scope, package);
+    if (!prefix || !remove_scope(*prefix, type_name))
+        return {};
+
+    return type_parts(*prefix) + 1;
+}
+
+auto is_first_part_declared(std::string_view scope, const proto_message &package, std::string_view type_name)
+    -> bool
+{
+    const auto dot_index = type_name.find('.');
+    if (dot_index == type_name.npos)
+        return false;
+
+    const auto first_part   = type_name.substr(0, dot_index);
+    const auto package_name = package.name.proto_name;
+    if (scope == package_name)
+        return std::any_of(package.messages.begin(), package.messages.end(),
+                           [first_part](const auto &message) { return first_part == message.name.proto_name; });
+
+    const auto prefix = remove_scope(scope, package_name);
+    return prefix && first_part == prefix->substr(0, prefix->find('.'));
+}
+
 auto is_packed_array(const proto_file &file, const proto_field &field) -> bool
 {
     if (field.label != proto_field::Label::REPEATED)
diff --git a/src/spb-proto-compiler/ast/ast-types.h b/src/spb-proto-compiler/ast/ast-types.h
index 9a8058e..069979a 100644
--- a/src/spb-proto-compiler/ast/ast-types.h
+++ b/src/spb-proto-compiler/ast/ast-types.h
@@ -12,7 +12,8 @@
 
 #include "ast/proto-field.h"
 #include "proto-file.h"
-#include <algorithm>
+#include <cstddef>
+#include <optional>
 #include <string_view>
 #include <vector>
 
@@ -20,44 +21,60 @@
 [[nodiscard]] auto is_packed_array(const proto_file &file, const proto_field &field) -> bool;
 
 /**
- * @brief resolve a type of a field in a package, the type name could be relative to any of the
- *        packages which enclose the field
+ * @brief files with the types which are visible in a file: the file, its imports and the public
+ *        imports of these, every file only once
+ *
+ */
+[[nodiscard]] auto get_visible_files(const proto_file &file) -> std::vector<const proto_file *>;
+
+/**
+ * @brief number of the parts of a type name which are the rest of the name of a package
  *
- * @param scope package of the file with the field
- * @param package searched package
+ * @param scope enclosing package, the type name is relative to it
+ * @param package name of a package
+ * @param type_name type name
+ * @return number of parts, or nothing if the type is not in the package
+ */
+[[nodiscard]] auto get_package_parts(std::string_view scope, std::string_view package,
+                                     std::string_view type_name) -> std::optional<size_t>;
+
+/**
+ * @brief first part of a type name is declared (as a package or as a message) in scope
+ *
+ */
+[[nodiscard]] auto is_first_part_declared(std::string_view scope, const proto_message &package,
+                                          std::string_view type_name) -> bool;
+
+/**
+ * @brief resolve a type of a field in the packages of all visible files, the type name could be
+ *        relative to any of the packages which enclose the field, the innermost one with the first
+ *        part of the name decides
+ *
+ * @param file file with the field
  * @param field field
- * @param resolve function (package, field, type_part) which resolves the type
+ * @param resolve function (file, field, type_part) which resolves the type
  * @return result of resolve
  */
 template <typename Resolve>
-[[nodiscard]] auto resolve_from_package(std::string_view scope, const proto_message &package,
-                                        const proto_field &field, const Resolve &resolve)
-    -> decltype(resolve(package, field, size_t(0)))
+[[nodiscard]] auto resolve_from_files(const proto_file &file, const proto_field &field, const Resolve &resolve)
+    -> decltype(resolve(file, field, size_t(0)))
 {
-    const auto starts_with_part = [](std::string_view name, std::string_view prefix)
-    { return name.size() > prefix.size() && name.starts_with(prefix) && name[prefix.size()] == '.'; };
-
-    const auto package_name = package.name.proto_name;
-    const auto type_name    = field.type_name.proto_name;
+    const auto files     = get_visible_files(file);
+    const auto type_name = field.type_name.proto_name;
 
-    for (;;)
+    for (auto scope = file.package.name.proto_name;;)
     {
-        if (scope == package_name)
+        auto declared = false;
+        for (const auto *p_file : files)
         {
-            if (const auto result = resolve(package, field, size_t(0)); result)
-                return result;
-        }
-        else if (scope.empty() || starts_with_part(package_name, scope))
-        {
-            const auto prefix = scope.empty() ? package_name : package_name.substr(scope.size() + 1);
-            if (starts_with_part(type_name, prefix))
+            if (const auto parts = get_package_parts(scope, p_file->package.name.proto_name, type_name); parts)
             {
-                const auto parts = size_t(std::count(prefix.begin(), prefix.end(), '.')) + 1;
-                if (const auto result = resolve(package, field, parts); result)
+                if (auto result = resolve(*p_file, field, *parts); result)
                     return result;
             }
+            declared = declared || is_first_part_declared(scope, p_file->package, type_name);
         }
-        if (scope.empty())
+        if (declared || scope.empty())
             return {};
 
         const auto dot_index = scope.rfind('.');
@@ -65,13 +82,6 @@ template <typename Resolve>
     }
 }
 
-/**
- * @brief files with the types which are visible in a file: the file, its imports and the public
- *        imports of these, every file only once
- *
- */
-[[nodiscard]] auto get_visible_files(const proto_file &file) -> std::vector<const proto_file *>;
-
 /**
  * @brief resolve types in a proto file
  *
-- 
2.43.0


From 88e27e176731580d02f33fe5fdc7d92f6d6dd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 60/66] fix: unknown int types were ignored for 32 bit fields,
 bit fields wider than their type were accepted

---
 src/spb-proto-compiler/ast/ast-types.cpp | 41 +++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index b625229..b590680 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -16,6 +16,7 @@
 #include "proto-file.h"
 #include "proto-message.h"
 #include "spb/pb/wire-types.h"
+#include "spb/to_from_chars.h"
 #include <algorithm>
 #include <array>
 #include <optional>
@@ -119,7 +120,7 @@ struct resolved_type
     for (auto [proto_type, types] : type_map)
     {
         if (from == proto_type)
-            return std::find(types.begin(), types.end(), to) != types.end();
+            return to != proto_field::BitType::NONE && std::find(types.begin(), types.end(), to) != types.end();
     }
     return false;
 }
@@ -152,6 +153,43 @@ struct resolved_type
     return proto_field::BitType::NONE;
 }
 
+[[nodiscard]] auto get_type_width(proto_field::BitType type) -> uint32_t
+{
+    switch (type)
+    {
+    case proto_field::BitType::NONE:
+        return 0;
+    case proto_field::BitType::INT8:
+    case proto_field::BitType::UINT8:
+        return 8;
+    case proto_field::BitType::INT16:
+    case proto_field::BitType::UINT16:
+        return 16;
+    case proto_field::BitType::INT32:
+    case proto_field::BitType::UINT32:
+        return 32;
+    case proto_field::BitType::INT64:
+    case proto_field::BitType::UINT64:
+        return 64;
+    }
+    return 0;
+}
+
+//- a wider bit field would lose the bits which do not fit into the type
+void check_bitfield(const proto_file &file, std::string_view type, proto_field::BitType bit_type)
+{
+    const auto index = type.find(':');
+    if (index == type.npos)
+        return;
+
+    const auto bits   = type.substr(index + 1);
+    auto width        = uint32_t();
+    const auto result = spb_std_emu::from_chars(bits.data(), bits.data() + bits.size(), width);
+    if (result.ec == std::errc{} && result.ptr == bits.data() + bits.size() &&
+        (width == 0 || width > get_type_width(bit_type)))
+        throw_parse_error(file, bits, "invalid width of a bit field: " + std::string(type));
+}
+
 [[nodiscard]] auto get_scalar_proto_type(std::string_view type_name) -> proto_field::Type
 {
     struct type_table
@@ -203,6 +241,7 @@ struct resolved_type
                               std::string("incompatible int type: ") +
                                   std::string(field.type_name.proto_name) + " and " + std::string(name));
         }
+        check_bitfield(file, name, field_type);
         return {type, field_type};
     }
 
-- 
2.43.0


From 4d992ec043526bd884a39bfc637b310a2985373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 61/66] fix: options of a message were not applied to its maps
 and oneofs

---
 src/spb-proto-compiler/dumper/header.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 4428aa5..80dde2b 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -352,14 +352,15 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     stream << "};\n";
 }
 
-void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_file &file)
+void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_message &message,
+                        const proto_file &file)
 {
     dump_comment(stream, oneof.comment);
 
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
-        stream << ", " << convert_to_ctype(file, field);
+        stream << ", " << convert_to_ctype(file, field, message);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
 }
@@ -367,8 +368,8 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
 void dump_message_map(std::ostream &stream, const proto_map &map, const proto_message &message,
                       const proto_file &file)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     dump_comment(stream, map.comment);
     stream << get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
@@ -554,8 +555,8 @@ void get_std_includes(std::string_view ctype, std::string_view type, std_include
 void get_std_includes(const proto_map &map, const proto_message &message, const proto_file &file,
                       std_includes &result)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     result.map |= get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
                                value_type, "std::map<$, @>")
@@ -577,11 +578,12 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
                      (field.attributes.default_.ends_with("inf") || field.attributes.default_.ends_with("nan"));
 }
 
-void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
+void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
+                      std_includes &result)
 {
     for (const auto &field : oneof.fields)
     {
-        get_std_includes(convert_to_ctype(file, field), "", result);
+        get_std_includes(convert_to_ctype(file, field, message), "", result);
     }
 }
 
@@ -595,7 +597,7 @@ void get_std_includes(const proto_message &message, const proto_file &file, std_
     for (const auto &oneof : message.oneofs)
     {
         result.variant = true;
-        get_std_includes(oneof, file, result);
+        get_std_includes(oneof, message, file, result);
     }
 
     for (const auto &field : message.fields)
@@ -648,7 +650,7 @@ void dump_message(std::ostream &stream, const proto_message &message, const prot
 
     for (const auto &oneof : message.oneofs)
     {
-        dump_message_oneof(stream, oneof, file);
+        dump_message_oneof(stream, oneof, message, file);
     }
 
     //- TODO: is this used in any way?
-- 
2.43.0


From 7e2470b62530bb570b3cb423b84a8335e044fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 62/66] fix: options in comments of map fields were ignored

---
 src/spb-proto-compiler/parser/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f97dd8e..058c73e 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -816,6 +816,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
-- 
2.43.0


From 2ddb77b502a0308a3717d9fbb071270930f05f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 63/66] fix: compiler: a line comment must not end with a
 backslash

---
 src/spb-proto-compiler/dumper/header.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 80dde2b..386e4eb 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -51,9 +51,14 @@ void dump_comment(std::ostream &stream, const proto_comment &comment)
             continue;
         }
 
-        stream << comm;
-        if (comm.back() != '\n')
-            stream << '\n';
+        if (!comm.starts_with("//"))
+        {
+            stream << comm << '\n';
+            continue;
+        }
+
+        //- a line comment can't end with '\', the next line would be a part of it
+        stream << comm.substr(0, comm.find_last_not_of("\\ \t\v\f\r\n") + 1) << '\n';
     }
 }
 
-- 
2.43.0


From d6a123d6acfc3b410db70db2ed485b52ef8e5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 64/66] fix: conversion of integers without std::from_chars:
 range, '+', white space, hexadecimal prefix, long texts

---
 include/spb/to_from_chars.h | 78 +++++++++++--------------------------
 1 file changed, 22 insertions(+), 56 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index d97b60a..185a38f 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -19,6 +19,7 @@ namespace spb_std_emu = std;
 #include <cassert>
 #include <cctype>
 #include <concepts>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
@@ -43,72 +44,37 @@ static inline auto from_chars(const char *first, const char *last, std::integral
     -> from_chars_result
 {
     assert(first <= last);
-    char buffer[32];
-    auto copy_size = std::min<size_t>(last - first, sizeof(buffer) - 1);
-    memcpy(buffer, first, copy_size);
-    buffer[copy_size] = '\0';
-    const char *end   = nullptr;
-
     using T = std::decay_t<decltype(number)>;
 
     static_assert(sizeof(number) >= 1 && sizeof(number) <= 8, "unsupported size");
-    errno       = 0;
-    auto result = T(0);
 
-    if constexpr (std::is_signed_v<T>)
-    {
-        if constexpr (sizeof(number) < 4)
-        {
-            auto tmp = strtol(buffer, (char **)&end, base);
-            if (tmp <= std::numeric_limits<T>::max() && tmp >= std::numeric_limits<T>::min()) [[likely]]
-            {
-                result = T(tmp);
-            }
-            else
-            {
-                errno = ERANGE;
-            }
-        }
-        else if constexpr (sizeof(number) == 4)
-        {
-            result = strtol(buffer, (char **)&end, base);
-        }
-        else if constexpr (sizeof(number) == 8)
-        {
-            result = strtoll(buffer, (char **)&end, base);
-        }
-    }
-    else
+    const auto is_negative = std::is_signed_v<T> && first != last && *first == '-';
+    const auto limit       = uint64_t(std::numeric_limits<T>::max()) + (is_negative ? 1U : 0U);
+    const auto *digits     = first + (is_negative ? 1 : 0);
+    const auto *end        = digits;
+    auto result            = uint64_t(0);
+    auto is_out_of_range   = false;
+
+    for (; end != last; ++end)
     {
-        if constexpr (sizeof(number) < 4)
-        {
-            auto tmp = strtoul(buffer, (char **)&end, base);
-            if (tmp <= std::numeric_limits<T>::max()) [[likely]]
-            {
-                result = T(tmp);
-            }
-            else
-            {
-                errno = ERANGE;
-            }
-        }
-        else if constexpr (sizeof(number) == 4)
-        {
-            result = strtoul(buffer, (char **)&end, base);
-        }
-        else if constexpr (sizeof(number) == 8)
-        {
-            result = strtoull(buffer, (char **)&end, base);
-        }
+        const auto c     = static_cast<unsigned char>(*end);
+        const auto digit = unsigned(isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : base);
+        if (digit >= unsigned(base))
+            break;
+
+        if (digit > limit || result > (limit - digit) / base)
+            is_out_of_range = true;
+        else
+            result = result * base + digit;
     }
-    end = first + (end - buffer);
-    if (end == first)
+
+    if (end == digits)
         return {first, std::errc::invalid_argument};
 
-    if (errno == ERANGE)
+    if (is_out_of_range)
         return {end, std::errc::result_out_of_range};
 
-    number = result;
+    number = T(is_negative ? 0 - result : result);
     return {end, std::errc()};
 }
 
-- 
2.43.0


From e19dcd0582e233ecf12ee8b7755cbab5859bf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 65/66] fix: conversion of floats without std::from_chars:
 white space, '+', hexadecimal, denormals, long texts

---
 include/spb/to_from_chars.h | 68 +++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index 185a38f..8fb4faf 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -18,6 +18,8 @@ namespace spb_std_emu = std;
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <concepts>
 #include <cstdint>
 #include <cstdlib>
@@ -78,32 +80,76 @@ static inline auto from_chars(const char *first, const char *last, std::integral
     return {end, std::errc()};
 }
 
+static inline auto find_end_of_float(const char *first, const char *last) -> const char *
+{
+    const auto skip_digits = [last](const char *begin)
+    { return std::find_if(begin, last, [](unsigned char c) { return !isdigit(c); }); };
+    const auto starts_with = [last](const char *begin, const char *lower)
+    {
+        for (; *lower != '\0'; ++begin, ++lower)
+        {
+            if (begin == last || tolower(static_cast<unsigned char>(*begin)) != *lower)
+                return false;
+        }
+        return true;
+    };
+
+    const auto *begin = first != last && *first == '-' ? first + 1 : first;
+    if (starts_with(begin, "infinity"))
+        return begin + 8;
+
+    if (starts_with(begin, "inf") || starts_with(begin, "nan"))
+        return begin + 3;
+
+    const auto *end = skip_digits(begin);
+    auto has_digits = end != begin;
+    if (end != last && *end == '.')
+    {
+        const auto *fraction = skip_digits(end + 1);
+        has_digits           = has_digits || fraction != end + 1;
+        end                  = fraction;
+    }
+    if (!has_digits)
+        return first;
+
+    if (end != last && (*end == 'e' || *end == 'E'))
+    {
+        const auto *exponent = end + 1;
+        if (exponent != last && (*exponent == '+' || *exponent == '-'))
+            ++exponent;
+
+        const auto *exponent_end = skip_digits(exponent);
+        if (exponent_end != exponent)
+            end = exponent_end;
+    }
+    return end;
+}
+
 static inline auto from_chars(const char *first, const char *last, std::floating_point auto &number)
     -> from_chars_result
 {
     assert(first <= last);
-    char buffer[256];
-    auto copy_size = std::min<size_t>(last - first, sizeof(buffer) - 1);
-    memcpy(buffer, first, copy_size);
-    buffer[copy_size] = '\0';
-    const char *end   = nullptr;
+    const auto *end = find_end_of_float(first, last);
+    if (end == first)
+        return {first, std::errc::invalid_argument};
+
+    //- strtod needs a zero at the end and accepts more than std::from_chars (spaces, '+', hexadecimal numbers)
+    const auto text = std::string(first, end);
 
     static_assert(sizeof(number) == 4 || sizeof(number) == 8, "unsupported size");
     errno       = 0;
     auto result = std::decay_t<decltype(number)>{0};
     if constexpr (sizeof(number) == 4)
     {
-        result = strtof(buffer, (char **)&end);
+        result = strtof(text.c_str(), nullptr);
     }
     else if constexpr (sizeof(number) == 8)
     {
-        result = strtod(buffer, (char **)&end);
+        result = strtod(text.c_str(), nullptr);
     }
-    end = first + (end - buffer);
-    if (end == first)
-        return {end, std::errc::invalid_argument};
 
-    if (errno == ERANGE)
+    //- ERANGE is also set for denormal numbers
+    if (errno == ERANGE && (result == 0 || std::isinf(result)))
         return {end, std::errc::result_out_of_range};
 
     number = result;
-- 
2.43.0


From 6a6e768665785ec67a02bd976a4d55d856b81e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 66/66] fix: floats were written with 6 digits without
 std::to_chars

---
 include/spb/to_from_chars.h | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index 8fb4faf..f91c31d 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -22,6 +22,7 @@ namespace spb_std_emu = std;
 #include <cmath>
 #include <concepts>
 #include <cstdint>
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
@@ -181,33 +182,26 @@ static inline auto to_chars(char *first, char *last, const std::floating_point a
     if (last <= first)
         return {first, std::errc::value_too_large};
 
-    const auto buffer_size = last - first;
+    using T = std::remove_cvref_t<decltype(number)>;
+    static_assert(sizeof(T) == 4 || sizeof(T) == 8, "unsupported size");
 
-    const char *format;
-
-    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, double>)
-    {
-        format = "%lg";
-    }
-    else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, long double>)
+    //- the shortest text which is converted back to the same number
+    char buffer[32];
+    auto written = 0;
+    for (auto precision = 1; precision <= std::numeric_limits<T>::max_digits10; ++precision)
     {
-        format = "%Lg";
-    }
-    else
-    {
-        format = "%g";
-    }
+        written = snprintf(buffer, sizeof(buffer), "%.*g", precision, static_cast<double>(number));
+        if (written < 0)
+            return {first, std::errc::invalid_argument};
 
-    const int written = snprintf(first, buffer_size, format, number);
-    if (written < 0)
-    {
-        return {first, std::errc::invalid_argument};
+        if ((sizeof(T) == 4 ? static_cast<T>(strtof(buffer, nullptr)) : static_cast<T>(strtod(buffer, nullptr))) == number)
+            break;
     }
-    else if (written > buffer_size)
-    {
+
+    if (written > last - first)
         return {first, std::errc::value_too_large};
-    }
 
+    memcpy(first, buffer, static_cast<size_t>(written));
     return {first + written, std::errc{}};
 }
 
-- 
2.43.0

