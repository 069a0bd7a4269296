From 012832b05a57d6ccd25e5ac1fd805f256b53ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/22] fix: asUint32 rejected every value above INT32_MAX

---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From e706799adb7f3c32795a34d37f972c686925c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/22] fix: doubles were unmarshalled without skipping their
 alignment padding

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..9103196 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -67,6 +67,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 void MessageIStream::read(double* value)
 {
     uint8_t bytes[sizeof(double)];
+    align(sizeof(double));
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
         std::reverse(std::begin(bytes), std::end(bytes));
-- 
2.43.0


From 63e9b68a1dc314b46d79d769c8facb4ff145c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 03/22] fix: variants are aligned to 1 byte, not 8

---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From e01a74579e65b9f782d4896d7759afb6f8921c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 04/22] fix: array length was written over the padding of an
 unaligned array

---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..8b2346e 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From 27593e0398815346b7603f024f771e84c2edfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 05/22] fix: signatures over 255 bytes were written with a
 truncated length

---
 src/dbus_messageostream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..a2c4e16 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,8 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
+#include <string>
 
 namespace DBus {
 
@@ -101,6 +103,8 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255)
+            throw std::length_error("Write signature error: Signature too long");
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
-- 
2.43.0


From 3547000f2498d1ae2b11e0005396e90d5f35fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 06/22] fix: unmarshalling a type that is not implemented
 consumed nothing and looped forever in arrays

---
 src/dbus_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..8f3c226 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,7 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -280,6 +281,7 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
 
     Log::write(DBus::Log::ERROR,
         "DBus :: Unmarshalling type not implemented (%s)\n", type.c_str());
+    throw std::runtime_error("Unmarshalling type not implemented: " + type);
 
 #undef TYPE_UNMARSHALL_DATA
 }
-- 
2.43.0


From 80f0ee84b88298de7e8e4bc82a8b900dc3148e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 07/22] fix: deeply nested containers in a message overflowed
 the stack

---
 src/dbus_messageistream.cpp | 13 +++++++++++++
 src/dbus_messageistream.h   | 16 ++++++++++++++++
 src/dbus_type.cpp           |  1 +
 3 files changed, 30 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9103196..0885f4e 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -28,6 +28,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,11 +36,23 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
 }
 
+MessageIStream::Nesting::Nesting(MessageIStream& stream)
+    : m_stream(stream)
+{
+    if (m_stream.m_depth >= MaximumDepth) {
+        throw std::runtime_error("MessageIStream error: Containers nested too deep");
+    }
+    ++m_stream.m_depth;
+}
+
+MessageIStream::Nesting::~Nesting() { --m_stream.m_depth; }
+
 void MessageIStream::align(size_t alignment)
 {
     if (m_offset % alignment) {
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..23722bb 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -49,6 +50,21 @@ class MessageIStream {
     }
 
 public:
+    // At most 64 containers may be nested in a message, plus the basic value
+    // inside the innermost one.
+    static constexpr size_t MaximumDepth = 65;
+
+    // Counts a value as being read from the stream for as long as it exists.
+    class Nesting {
+        MessageIStream& m_stream;
+
+    public:
+        explicit Nesting(MessageIStream& stream);
+        ~Nesting();
+        Nesting(const Nesting&) = delete;
+        Nesting& operator=(const Nesting&) = delete;
+    };
+
     MessageIStream(const uint8_t* data, size_t size, bool swapByteOrder);
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 8f3c226..b2e9565 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -260,6 +260,7 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
         return;                                           \
     }
 
+    const MessageIStream::Nesting nesting(stream);
     std::string type = getMarshallingSignature(result);
 
     TYPE_UNMARSHALL_DATA(Type::Byte);
-- 
2.43.0


From 60477f99f7cdf30406702ebc191df4a56cd0a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 08/22] fix: messages already delivered were delivered again
 after a malformed one

---
 src/dbus_messageprotocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..2a892bf 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From 314b25f7604d0178ba3df4e726dceb8400fa9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 09/22] fix: only the first line from the server was ever
 processed during authentication

---
 src/dbus_auth.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..1fde384 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -69,9 +69,9 @@ bool DBus::AuthenticationProtocol::processData()
 {
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
-        std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
+        const std::string command(m_data.data(), pos + 2);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From 601c70883a4f3b090b50331f2ae43d2b79a36c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 10/22] fix: received errors lost their message, and were
 dropped unless their body was a string

---
 src/dbus_message_error.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..9c935d2 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,11 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
+    // By convention the first parameter, if it is a string, is the message
+    if (m_Parameters.getParameterCount() && DBus::Type::getMarshallingSignature(m_Parameters.getParameter(0)) == "s") {
+        m_Message = DBus::Type::asString(m_Parameters.getParameter(0));
+    }
 
-    const std::string m_Message = DBus::Type::asString(dest[0]);
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From 7a208d61eccc2d10e31132c6e7f5405d207893c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 11/22] fix: flags of received method calls were discarded, so
 isReplyExpected was always true

---
 src/dbus_message_methodcall.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
-- 
2.43.0


From a808e5af3080dad0f5b8077110dd8c49996a2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/22] fix: reply serial of a received message without one was
 uninitialised

---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..00f11c6 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From 18d4ed23f9804a44c6e6effbd4ae742a2b9a44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 13/22] fix: serial counter wrapped around to the invalid
 serial 0

---
 src/dbus_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..b6da25f 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -36,6 +36,10 @@ DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
     m_Header.serial = serial ? serial : m_SerialCounter++;
+    // A serial must not be zero
+    if (m_SerialCounter == 0) {
+        m_SerialCounter = 1;
+    }
 }
 
 DBus::Message::Base::Base(const DBus::Type::Struct& header,
-- 
2.43.0


From 43568199aed461243f5679f40e7f1f6675c5d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 14/22] fix: path_namespace threw for an exact match, and the
 root namespace matched nothing

---
 src/dbus_matchrule.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..5b5b0a5 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -106,15 +106,15 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
     // by /com/example/foo or by /com/example/foo/bar, but not by
     // /com/example/foobar.
     if (path_namespace != "") {
-        if (signal_path.find(path_namespace) != 0) {
+        if (signal_path.compare(0, path_namespace.size(), path_namespace) != 0) {
             return false;
         }
 
         // This handles the 3rd case, by checking the character _after_ the match is
         // found: if it's not the terminator or another path (i.e. a new /) the
         // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // The root namespace matches every path.
+        if (path_namespace != "/" && signal_path.size() > path_namespace.size() && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From 6f810fdcb18f8bc37f2a9f8071f3c822a1b9db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 15/22] fix: a match rule element without a quoted value was
 undefined behaviour

---
 src/dbus_matchrule.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 5b5b0a5..95aa546 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -40,12 +40,16 @@ DBus::MatchRule::MatchRule(const std::string& rule,
         boost::split(keyvalue, param, boost::is_any_of("="));
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
+        if (keyvalue.size() < 2) {
+            throw std::runtime_error("Match rule element without a value: " + param);
+        }
 
         // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        if (keyvalue[1].size() >= 2 && keyvalue[1].front() == '\'' && keyvalue[1].back() == '\'') {
+            keyvalue[1].pop_back();
+            keyvalue[1].erase(0, 1);
+        }
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From af7a9b8b3b61de0ad085400a232b8e481417285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 16/22] fix: handlers and match rules could not be removed from
 within a handler

---
 src/dbus_native.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..127578b 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself
+        const auto handler = it->second;
+        handler(method);
     }
 }
 
@@ -226,13 +228,17 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself
+        const auto handler = it->second;
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
-            if (it.second.isMatched(signal)) {
+        // The handlers may add and remove rules
+        auto rules = m_RulesMap;
+        for (auto& it : rules) {
+            if (m_RulesMap.count(it.first) && it.second.isMatched(signal)) {
                 it.second.invoke(signal);
             }
         }
-- 
2.43.0


From 1acb14fbfbd979b4298c57f7c68c77d08a65d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 17/22] fix: a call whose reply callback threw was never
 completed

---
 src/dbus_native.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 127578b..25fa977 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -201,8 +201,9 @@ void DBus::Native::onReceiveMethodReturn(
     ++m_Stats.count_receive_methodreturns;
 
     if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+        const auto success = it->second.success;
         m_MessageQueue.erase(it);
+        success(result);
     }
 }
 
@@ -212,8 +213,9 @@ void DBus::Native::onReceiveError(const DBus::Message::Error& error)
     auto it = m_MessageQueue.find(error.getSerialOfReply());
 
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        const auto failure = it->second.failure;
         m_MessageQueue.erase(it);
+        failure(error);
     }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
-- 
2.43.0


From 4cb888dc79d0fef1be9ed16556a3d6da05f200e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 18/22] fix: introspection split the container types of a
 signal into characters

---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..d933e3e 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From 0481c722faccd0d82acc930bd50889ff861eef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 19/22] fix: the guid of a unix:path bus address was taken as
 part of the path

---
 src/dbus_platform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..85e1904 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -43,7 +43,8 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        path = path.substr(UNIX_PATH_PREFIX.size());
+        return path.substr(0, path.find(",guid="));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From 9768e14977575c7907327afb66fbc355183194e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 20/22] fix: overlapping async_writes could interleave messages
 on the wire

---
 src/dbus_transport.cpp | 35 +++++++++++++++++++++++++++++------
 src/dbus_transport.h   |  6 ++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..f70e871 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -142,9 +142,7 @@ void DBus::Transport::sendOctetDirect(uint8_t data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::shared_ptr<std::string> buf(new std::string());
     buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -155,22 +153,47 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 
     // We don't know when the write will complete, so we copy the buffer
     std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
 
+void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
+{
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+
+    // An async_write may reach the socket in several pieces, so the next one
+    // must not be started before it has completed
+    m_WriteQueue.push_back(buf);
+    if (m_WriteQueue.size() == 1) {
+        startWrite(buf);
+    }
+}
+
+void DBus::Transport::startWrite(const std::shared_ptr<std::string>& buf)
+{
+    boost::asio::async_write(
+        m_socket, boost::asio::buffer(*buf),
+        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+}
+
 void DBus::Transport::handle_write_output(
     std::shared_ptr<std::string> buf_written,
     const boost::system::error_code& error, std::size_t bytes_transferred)
 {
     buf_written.reset();
+
     if (error) {
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
     }
+
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+
+    m_WriteQueue.pop_front();
+    if (!m_WriteQueue.empty()) {
+        startWrite(m_WriteQueue.front());
+    }
 }
 
 void DBus::Transport::setDataHandler(
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..b4a3200 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -21,6 +21,8 @@
 #include "dbus_octetbuffer.h"
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
+#include <memory>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -57,6 +59,8 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void queueWrite(const std::shared_ptr<std::string>& buf);
+    void startWrite(const std::shared_ptr<std::string>& buf);
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -70,6 +74,8 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    // The first of these is being written to the socket
+    std::deque<std::shared_ptr<std::string>> m_WriteQueue;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 4d57a50bc8de5e4d0a002db81f982d6c594ed48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 21/22] fix: match rule elements end at commas outside quotes,
 values may contain '='

---
 src/dbus_matchrule.cpp | 65 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 95aa546..f6a2eb9 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -16,9 +16,7 @@
 // <http://www.gnu.org/licenses/>.
 
 #include <algorithm>
-#include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -31,41 +29,54 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
-        // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
+    // 1. Split by the commas that are not within quotes
+    for (size_t pos = 0; pos < rule.size();) {
+        bool quoted = false;
+        size_t end = pos;
+        while (end < rule.size() && (quoted || rule[end] != ',')) {
+            if (rule[end] == '\'') {
+                quoted = !quoted;
+            }
+            ++end;
+        }
+        const std::string param(rule.substr(pos, end - pos));
+        pos = end + 1;
+        if (param.empty()) {
+            continue;
+        }
+
+        // 2. Then split each at the (first) equals
+        const size_t equals = param.find('=');
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
         // destination, arg*, eavesdrop
-        if (keyvalue.size() < 2) {
+        if (equals == std::string::npos) {
             throw std::runtime_error("Match rule element without a value: " + param);
         }
+        const std::string key(param.substr(0, equals));
+        std::string value(param.substr(equals + 1));
 
         // 3. Strip the single quotes from the value
-        if (keyvalue[1].size() >= 2 && keyvalue[1].front() == '\'' && keyvalue[1].back() == '\'') {
-            keyvalue[1].pop_back();
-            keyvalue[1].erase(0, 1);
+        if (value.size() >= 2 && value.front() == '\'' && value.back() == '\'') {
+            value.pop_back();
+            value.erase(0, 1);
         }
 
         // We store it somewhere convenient to speed the isMateched checks
-        if (keyvalue[0] == "type") {
-            type = keyvalue[1];
-        } else if (keyvalue[0] == "sender") {
-            sender = keyvalue[1];
-        } else if (keyvalue[0] == "interface") {
-            interface = keyvalue[1];
-        } else if (keyvalue[0] == "member") {
-            member = keyvalue[1];
-        } else if (keyvalue[0] == "path") {
-            path = keyvalue[1];
-        } else if (keyvalue[0] == "path_namespace") {
-            path_namespace = keyvalue[1];
-        } else if (keyvalue[0] == "destination") {
-            destination = keyvalue[1];
+        if (key == "type") {
+            type = value;
+        } else if (key == "sender") {
+            sender = value;
+        } else if (key == "interface") {
+            interface = value;
+        } else if (key == "member") {
+            member = value;
+        } else if (key == "path") {
+            path = value;
+        } else if (key == "path_namespace") {
+            path_namespace = value;
+        } else if (key == "destination") {
+            destination = value;
         }
 
         // TODO: eavesdrop
-- 
2.43.0


From 6bc9d9c8b05eaccd30440d3681f24adb3533dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 22/22] fix: a received method return lost its flags

---
 src/dbus_message_methodreturn.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..54b6868 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -39,7 +39,6 @@ DBus::Message::MethodReturn::MethodReturn(const DBus::Type::Struct& header,
     : Message::Base(header, body)
 {
 
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_RETURN;
     m_SerialReplyingTo = getReplySerial();
 
-- 
2.43.0

