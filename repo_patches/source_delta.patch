From 82313e647870f7766915834167761d998a6024b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/96] fix: do not default-initialise reference members with
 nullptr (ill-formed, rejected by Clang)

---
 bomba_http.hpp       | 4 ++--
 bomba_json_rpc.hpp   | 2 +-
 bomba_tcp_server.hpp | 2 +-
 tls/tls_server.hpp   | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..bcbdd14 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -527,7 +527,7 @@ struct DummyPostResponder : IHttpPostResponder {
 
 template <BetterAssembledString ResponseStringType = std::string>
 class HtmlPostResponder : public IHttpPostResponder {
-	IRemoteCallable& _callable = nullptr;
+	IRemoteCallable& _callable;
 public:
 	HtmlPostResponder(IRemoteCallable& callable) : _callable(callable) {}
 
@@ -573,7 +573,7 @@ class RpcGetResponder : public IHttpGetResponder {
 	IHttpGetResponder& _provider;
 	IRemoteCallable& _callable;
 	static constexpr DownloadIfFilePresent<HtmlMessageEncoding<ResponseStringType>> defaultDispatcher = {};
-	const IHttpDispatcher& _dispatcher = nullptr;
+	const IHttpDispatcher& _dispatcher;
 
 public:
 	RpcGetResponder(IHttpGetResponder& provider, IRemoteCallable& callable, const IHttpDispatcher& dispatcher = defaultDispatcher)
diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..0d940f2 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -228,7 +228,7 @@ template <typename HttpType, BetterAssembledString LocalStringType = std::string
 class JsonRpcClientProtocol : public IRpcResponder {
 	using Json = BasicJson<LocalStringType, GeneralisedBuffer>;
 	constexpr static auto noFlags = Json::Output::Flags::NONE;
-	HttpType& _upper = nullptr;
+	HttpType& _upper;
 public:
 	
 	RequestToken send(UserId user, const IRemoteCallable* method,
diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..11fcc40 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -155,7 +155,7 @@ class TcpServer {
 		typename Responder::Session _responder;
 		TcpServerBuffer _buffer;
 		Net::const_buffer _space = {};
-		TcpServer& _parent = nullptr;
+		TcpServer& _parent;
 		int _index = {};
 
 		Session(Net::ip::tcp::socket&& socket, Responder& responder, TcpServer& parent, int index)
diff --git a/tls/tls_server.hpp b/tls/tls_server.hpp
index 7f57684..ffeb560 100644
--- a/tls/tls_server.hpp
+++ b/tls/tls_server.hpp
@@ -35,7 +35,7 @@ class TlsServer {
 		typename Responder::Session _responder;
 		TcpServerBuffer _buffer;
 		boost::asio::mutable_buffer _space = {};
-		TlsServer& _parent = nullptr;
+		TlsServer& _parent;
 		int _index = {};
 
 		Session(SocketType&& socket, Responder& responder, TlsServer& parent, int index)
-- 
2.43.0


From b86b44632a602f292f3b36b48a36ad42a5a4b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 02/96] Verification hook: let Clang compile the GCC code path
 (BOMBA_VERIFY_GCC_PATH)

---
 bomba_object.hpp     | 10 ++++++++--
 bomba_rpc_object.hpp |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..c4d1700 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -6,7 +6,7 @@
 #endif
 #include <algorithm>
 
-#if (_MSC_VER && !__INTEL_COMPILER) || __clang__
+#if (_MSC_VER && !__INTEL_COMPILER) || (__clang__ && !defined(BOMBA_VERIFY_GCC_PATH))
 #define NO_DEFECT_REPORT_2118
 #endif
 
@@ -14,6 +14,12 @@
 #include <vector>
 #endif
 
+#ifdef BOMBA_VERIFY_GCC_PATH
+#define BOMBA_EAGER_CONVERSION constexpr // Makes Clang instantiate these in the same order as GCC
+#else
+#define BOMBA_EAGER_CONVERSION
+#endif
+
 namespace Bomba {
 
 // Suppress GCC warnings that I should not do this
@@ -344,7 +350,7 @@ class Serialisable : public IDescribableSerialisable {
 #else
 		template <typename T>
 #endif
-		operator T() const {
+		BOMBA_EAGER_CONVERSION operator T() const {
 			if (Serialisable::_setupInstance) [[unlikely]] {
 				SerialisationSetupData& info = *Serialisable::_setupInstance;
 
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..f7d17d1 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -7,7 +7,7 @@
 
 #include <csetjmp>
 
-#if (_MSC_VER && !__INTEL_COMPILER) || __clang__
+#if (_MSC_VER && !__INTEL_COMPILER) || (__clang__ && !defined(BOMBA_VERIFY_GCC_PATH))
 #define NO_DEFECT_REPORT_2118
 #endif
 
-- 
2.43.0


From 3c40a363317a5e3f7583df8d5587979572a68625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 03/96] fix: JSON output buffer too small for the longest
 integers and doubles

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..a4987ee 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -265,7 +265,7 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // The longest integer has 20 characters, the longest double has 24
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
-- 
2.43.0


From 2da23e021fdbfde1c7adff831157a5cc14b4dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 04/96] fix: escape newlines and control characters correctly
 in JSON strings

---
 bomba_json.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index a4987ee..d23306d 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -292,9 +292,17 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it == '\n') [[unlikely]]
+					_contents += "\\n";
+				else if (it >= 0 && it < ' ') [[unlikely]] { // JSON does not allow unescaped control characters
+					constexpr const char* digits = "0123456789abcdef";
+					_contents += "\\u00";
+					_contents += digits[it >> 4];
+					_contents += digits[it & 0xf];
+				} else _contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From 3d9f32ad2d34ae14fcc57f2f2b7c94e834373acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 05/96] fix: decode all escape sequences in JSON strings

---
 bomba_json.hpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index d23306d..aed5f87 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -30,6 +30,53 @@ struct BasicJson {
 			good = false;
 		}
 		
+		uint32_t readUnicodeEscape() {
+			uint32_t value = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				value <<= 4;
+				if (digit >= '0' && digit <= '9')
+					value |= digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					value |= digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					value |= digit - 'A' + 10;
+				else
+					fail("Invalid unicode escape in JSON string");
+			}
+			return value;
+		}
+		
+		void addUnicodeEscape() {
+			uint32_t value = readUnicodeEscape();
+			if (value >= 0xd800 && value < 0xdc00) { // High surrogate, the low one must follow
+				if (getChar() != '\\' || getChar() != 'u')
+					fail("Unpaired surrogate in JSON string");
+				uint32_t low = readUnicodeEscape();
+				if (low < 0xdc00 || low >= 0xe000)
+					fail("Unpaired surrogate in JSON string");
+				value = 0x10000 + ((value - 0xd800) << 10) + ((low - 0xdc00) & 0x3ff);
+			} else if (value >= 0xdc00 && value < 0xe000)
+				fail("Unpaired surrogate in JSON string");
+			
+			if (value < 0x80)
+				_resultBuffer += char(value);
+			else {
+				if (value < 0x800)
+					_resultBuffer += char(0xc0 | (value >> 6));
+				else {
+					if (value < 0x10000)
+						_resultBuffer += char(0xe0 | (value >> 12));
+					else {
+						_resultBuffer += char(0xf0 | (value >> 18));
+						_resultBuffer += char(0x80 | ((value >> 12) & 0x3f));
+					}
+					_resultBuffer += char(0x80 | ((value >> 6) & 0x3f));
+				}
+				_resultBuffer += char(0x80 | (value & 0x3f));
+			}
+		}
+		
 		bool isPastEnd(int position) {
 			if (_contents.begin() + position < _contents.end()) [[likely]]
 				return false;
@@ -136,12 +183,22 @@ struct BasicJson {
 			while (readingChar != '"') {
 				if (readingChar == '\\') [[unlikely]] {
 					readingChar = getChar();
-					if (readingChar == '\\')
-						_resultBuffer += '\\';
-					else if (readingChar == '"')
-						_resultBuffer += '"';
+					if (readingChar == '\\' || readingChar == '"' || readingChar == '/')
+						_resultBuffer += readingChar;
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						addUnicodeEscape();
+					else
+						fail("Invalid escape sequence in JSON string");
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
-- 
2.43.0


From 50093e2f9fb6004f11083449bbab52da946ed460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 06/96] fix: skip JSON strings with escapes and values directly
 followed by the end of the object

---
 bomba_json.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index aed5f87..412db82 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -279,6 +279,8 @@ struct BasicJson {
 					depth++;
 					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0)
+						break; // This ends the enclosing object or array
 					depth--;
 					getChar();
 					if (depth <= 0)
@@ -288,9 +290,14 @@ struct BasicJson {
 					break; // eatWhitespace() was called before
 				} else if (readingChar == '"') {
 					getChar();
-					do {
+					readingChar = getChar();
+					while (readingChar != '"' && good) {
+						if (readingChar == '\\')
+							getChar(); // The escaped character can be a quotation mark
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+					}
+					if (depth == 0)
+						break;
 				} else { // Numbers, bool, null...
 					getChar();
 				}
-- 
2.43.0


From aac0db7178363c8c7fbd5f0948495c63256395a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 07/96] fix: read JSON integers at the end of the input and
 with an explicitly positive exponent

---
 bomba_json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 412db82..4519910 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -154,10 +154,10 @@ struct BasicJson {
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
+			char next = peekChar<false>();
+			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
 				_position++;
-				next = peekChar();
+				next = peekChar<false>();
 			}
 			return result;
 		}
-- 
2.43.0


From d05fab6e345ea191f9a6386c3da28b0336e46892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 08/96] fix: do not identify negative JSON floats as integers

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 4519910..77bdf79 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -126,7 +126,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = (nextChar == '-') ? _position + 1 : _position; _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From c33b2e11d46d38b9b6559bdb4b9472047e6e4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 09/96] fix: stay in sync when an array in the input has more
 elements than the array it is read into

---
 bomba_core.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..b8887f6 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1014,8 +1014,13 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
-			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+		for (int i = 0; in.nextArrayElement(flags); i++) {
+			if (i < int(size))
+				TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			else { // There are more elements than what can be stored
+				T discarded = {};
+				TypedSerialiser<T>::deserialiseMember(in, discarded, flags);
+			}
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From b5ff0ab7447deec5ffce168f4e753f5926621f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 10/96] fix: keep the key while updating an element of a map

---
 bomba_core.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index b8887f6..321ee92 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1119,12 +1119,13 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+				typename Map::key_type key(*elementName); // The name does not need to be valid after reading the value
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+					TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From 584b1ced1cd6c50eb92c6351d5fcfaa0bc21d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 11/96] fix: do not stop reading an object early when it has
 unknown members

---
 bomba_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index c4d1700..fe37972 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -446,7 +446,8 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			// If elements have names, there can be unknown ones, so their count does not decide which one is the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if not the last one
 #endif
 		});
 		return format.good;
-- 
2.43.0


From 25eb0f627997b9bafb99b9eb6517d30cdbc9e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 12/96] fix: last element of arrays was lost when reading the
 binary format

---
 bomba_binary_protocol.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..b7c3a7a 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -66,7 +66,8 @@ struct BinaryFormat {
 	class Input : public IStructuredInput {
 		std::span<const char> _contents;
 		int _position = 0;
-		std::array<int, MaxDepth> _sizes;
+		std::array<int64_t, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Where the array's contents start, until the first element is started
 		int _depth = -1;
 
 		template <typename T>
@@ -134,9 +135,13 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			bool isFirst = (_position == _starts[_depth]); // If the first element wasn't read before calling this
+			_starts[_depth] = -1;
+			if (!isFirst)
+				_sizes[_depth]--;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From 6608ca81234bba73ef620e1bdb75262a0e8ab23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 13/96] fix: do not write and read sizes with an explicit type
 twice in the binary format

---
 bomba_binary_protocol.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b7c3a7a..9199e3f 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -84,7 +84,7 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+				return readInt(flags);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -189,7 +189,7 @@ struct BinaryFormat {
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+				return writeInt(flags, size);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
-- 
2.43.0


From bcd8f7db92d13ad4644c8ecb015f6f58bdbef1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 14/96] fix: refuse sizes that can't be represented instead of
 writing truncated ones

---
 bomba_binary_protocol.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 9199e3f..857cf1d 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -107,7 +107,7 @@ struct BinaryFormat {
 		}
 		std::string_view readString(Flags flags) final override {
 			auto length = readSize(flags);
-			if (_position + length > _contents.size()) [[unlikely]] {
+			if (length < 0 || length > std::ssize(_contents) - _position) [[unlikely]] {
 				parseError("Incomplete request");
 				good = false;
 				return "";
@@ -188,9 +188,14 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				return writeInt(flags, size);
-			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
+			if (!(flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE))
+				flags = SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType()));
+			SerialisationFlags::typeWithFlags(flags, [&] (auto typedSize) {
+				typedSize = size;
+				if (int64_t(typedSize) != size) [[unlikely]]
+					throw std::logic_error("The size can't be represented by the type used for sizes");
+			});
+			return writeInt(flags, size);
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From 1282609f6238947e1dcb19099a8b7f4f2965ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 15/96] fix: binary protocol server reads exactly the announced
 size of each message and survives malformed messages

---
 bomba_binary_protocol.hpp | 49 ++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 857cf1d..1c0b6af 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -269,36 +269,53 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input header(std::string_view(input.data(), input.size()));
 
-			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			int messageId = header.readInt(SerialisationFlags::UINT_32);
+			int64_t inputSize = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < header.position()) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
 
-			const IRemoteCallable* target = &parent.callable;
-			while (target->getChild(0)) {
-				int request = in.readInt(SerialisationFlags::UINT_8);
-				target = target->getChild(request);
-				if (!target)
-					return {ServerReaction::DISCONNECT, 0};
-			}
+			// Must not read beyond the end of the message
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input in(std::string_view(input.data(), inputSize));
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
 
 			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
 			out.writeInt(SerialisationFlags::UINT_32, messageId);
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+			try {
+#endif
+				const IRemoteCallable* target = &parent.callable;
+				while (target->getChild(0)) {
+					int request = in.readInt(SerialisationFlags::UINT_8);
+					target = target->getChild(request);
+					if (!target)
+						return {ServerReaction::DISCONNECT, 0};
+				}
+
+				target->call(&in, out, [&] {}, [&] (std::string_view problem) {
+					out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
+				});
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+			} catch (...) { // There is no way to report an error
+				return {ServerReaction::DISCONNECT, 0};
+			}
+#endif
 			SizeType outputSize = outputBuffer.size();
-			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
+			if (int64_t(outputSize) != outputBuffer.size()) [[unlikely]]
+				return {ServerReaction::DISCONNECT, 0};
+			std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(outputSize);
+			memcpy(&std::span<char>(outputBuffer)[sizePosition], writtenSize.data(), sizeof(writtenSize));
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return {ServerReaction::OK, inputSize};
 		}
 	};
 
-- 
2.43.0


From fc9402f105e2c0fbbe4c7ed9c0000736b94eed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 16/96] fix: binary protocol client doesn't read beyond the end
 of a response or send truncated sizes

---
 bomba_binary_protocol.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 1c0b6af..414d4d5 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -333,18 +333,21 @@ class BinaryProtocolClient : public IRpcResponder {
 	auto getResponseReader(RequestToken token, Callback<void(IStructuredInput&)> operation) {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
-			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
-			if (data.size() < size)
+			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input header(std::string_view(data.data(), data.size()));
+			if (data.size() < sizeof(int) + sizeof(SizeType))
+				return {ServerReaction::READ_ON, RequestToken(), 0};
+			RequestToken receivedToken = { uint32_t(header.readInt(SerialisationFlags::UINT_32)) };
+			int64_t size = header.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (size < header.position()) [[unlikely]]
+				return {ServerReaction::DISCONNECT, RequestToken(), 0};
+			if (std::ssize(data) < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
+			// Must not read beyond the end of the message
+			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), size));
+			in.restorePosition(SerialisationFlags::NONE, header.storePosition(SerialisationFlags::NONE));
 			operation(in);
 			return {ServerReaction::OK, token, size};
 		};
@@ -377,6 +380,8 @@ public:
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
 		request(out, token);
 
+		if (int64_t(SizeType(outputBuffer.size())) != outputBuffer.size()) [[unlikely]]
+			throw std::logic_error("The request is too large for the type used for sizes");
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
-- 
2.43.0


From 5ec79c84fc56c0e663d23179e8554905700e906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 17/96] fix: do not write past the end of a full buffer that
 can't expand

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 321ee92..2ec721b 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -421,6 +421,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.size() == 0) [[unlikely]] // Was full and couldn't make more space
+			return *this;
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
-- 
2.43.0


From 6f1fd82106eb2cc114f440e78640f57e640af370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 18/96] fix: clearing a buffer resets its size

---
 bomba_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 2ec721b..78cf3e8 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -464,6 +464,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void restartBuffer(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -523,7 +527,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
@@ -574,7 +578,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		restartBuffer({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From adbc5dba719688ecc5da2685318d5689d4d573c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 19/96] fix: the overload of serialise() that appends to its
 argument did not compile

---
 bomba_core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 78cf3e8..4b9394e 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -647,7 +647,6 @@ struct ISerialisable {
 	void serialise(FromType& output) {
 		typename F::Output format(output);
 		serialiseInternal(format);
-		return output;
 	}
 	
 	template <DataFormat F, typename FromType>
-- 
2.43.0


From d9244b7cca8899ed051cf4a786933f3654464ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 20/96] fix: call RPC lambdas locally when there is no client

---
 bomba_core.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 4b9394e..f2cb7e9 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -757,8 +757,6 @@ protected:
 	IRpcResponder* getResponder() const {
 		if (!_responder && _parent) [[unlikely]]
 			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
-			logicError("Calling a remote procedure while not being a client");
 		return _responder;
 	}
 
-- 
2.43.0


From 20120d0a428d20c3443947c44e09599e8999f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 21/96] fix: make Future<void> assignable and usable after a
 local call

---
 bomba_rpc_object.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index f7d17d1..a89a82e 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -263,7 +263,14 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			_reader = other._reader;
+			_responder = other._responder;
+			_token = other._token;
+			other._reader = nullptr;
+			other._responder = nullptr;
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
@@ -316,7 +323,7 @@ class Future<void> : Detail::FutureBase<void> {
 	mutable bool _done = false;
 public:
 	using Base::FutureBase;
-	Future() = default;
+	Future() : _done(true) {} // Was called locally
 
 	void get() const {
 		if (_done)
-- 
2.43.0


From 72439155f7de85fc4bd4a094aca8a9d66cfd51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 22/96] fix: do not crash when reassigning or discarding an
 unused Future

---
 bomba_rpc_object.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index a89a82e..3da1e0b 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -283,10 +283,17 @@ class Future : Detail::FutureBase<Returned> {
 
 	void cleanup() {
 		if (Base::_responder && !_value) {
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+			try {
+				get();
+			} catch (...) {} // Nobody is interested in the result
+#else
 			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
+#endif
 		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value = std::nullopt;
 	}
 public:
 	using Base::FutureBase;
-- 
2.43.0


From 2b522f9867b5c029c8aab9f845ac9a6516542108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 23/96] fix: skip the values of unknown named arguments of RPC
 methods

---
 bomba_rpc_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 3da1e0b..b15dd13 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -428,6 +428,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
+				if (name.has_value()) // Unknown argument
+					in.skipObjectElement(flags);
 				return;
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
-- 
2.43.0


From af02a3186de0a1d742fa75acf3930884fe74cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 24/96] fix: do not store lambdas with nontrivial closures
 locally when given as lvalues

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..f8c54d2 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_destructible_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From 5171553a400c031193b58dff488e25b4fe0eca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 25/96] fix: maps can be members of objects and arguments in
 formats that omit names of known members

---
 bomba_core.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f2cb7e9..3837bcd 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1100,7 +1100,11 @@ concept SerialisableMap = requires(M map, M secondMap, typename M::key_type key)
 template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
-	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
+	static constexpr SerialisationFlags::Flags withoutKnownLayout(SerialisationFlags::Flags flags) {
+		return SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // The keys can't be known in advance
+	}
+	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags originalFlags) {
+		SerialisationFlags::Flags flags = withoutKnownLayout(originalFlags);
 		out.startWritingObject(flags, value.size());
 		int index = 0;
 		for (auto& it : value) {
@@ -1111,7 +1115,8 @@ struct TypedSerialiser<Map> {
 		out.endWritingObject(flags);
 	}
 
-	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
+	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags originalFlags) {
+		SerialisationFlags::Flags flags = withoutKnownLayout(originalFlags);
 		if (value.empty()) {
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
-- 
2.43.0


From d9747a4b680d1726a89f5048a400adcd629bdb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 26/96] fix: find the location of optional members with
 nontrivial destructors in optimised builds

---
 bomba_object.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index fe37972..fcb1e5b 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -327,8 +327,7 @@ class Serialisable : public IDescribableSerialisable {
 				if (_setupInstance) [[unlikely]] {
 					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
 					T value;
-					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
+					value = std::decay_t<decltype(*value)>(); // Must stay set, compilers may not preserve the contents of a reset std::optional
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From 3c7835a683502c46c37f1ff712c74602abc4cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 27/96] fix: HTTP first lines lacking some parts are malformed
 messages, not out of range accesses

---
 bomba_http.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bcbdd14..3012df6 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -631,7 +631,7 @@ public:
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -643,8 +643,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) [[unlikely]]
+					return false; // It doesn't have all the parts
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -844,14 +846,13 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
-				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
-			return true;
+			if (separator1 >= std::ssize(firstLine)) [[unlikely]]
+				return false; // There is no result code
+			auto [end, error] = std::from_chars(firstLine.data() + separator1, firstLine.data() + firstLine.size(), resultCode);
+			return error == std::errc();
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
 	};
-- 
2.43.0


From 60145b5d1118c8a3de3df1ff4eccf2fdaa784b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 28/96] fix: refuse HTTP messages with negative, too large or
 malformed Content-Length

---
 bomba_http.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3012df6..900e425 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -117,7 +118,14 @@ struct HttpParseState {
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				while (!attributeValue.empty() && (attributeValue.back() == ' ' || attributeValue.back() == '\t'))
+					attributeValue.remove_suffix(1);
+				const char* valueEnd = attributeValue.data() + attributeValue.size();
+				auto [numberEnd, error] = std::from_chars(attributeValue.data(), valueEnd, bodySize);
+				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0
+						|| bodySize > std::numeric_limits<int>::max() - position - 4) [[unlikely]] {
+					return {ServerReaction::DISCONNECT, 0}; // Not a usable size
+				}
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
-- 
2.43.0


From e1ee3d0eaeaf397f5550e4917a4f42720947ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 29/96] fix: HTTP server consumes bodies of all requests, not
 only of POST requests

---
 bomba_http.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 900e425..df8649b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -694,17 +694,15 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1)
+				_state.bodySize = 0; // Other requests can do without a body
 			int consuming = _state.parsePosition + _state.bodySize;
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From 0bc5fe230b60a90ca0c39bd9c887d3be7488842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 30/96] fix: HTTP server doesn't use the Content-Type of a
 previous request

---
 bomba_http.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index df8649b..3bac7d0 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -633,8 +633,8 @@ public:
 				POST_REQUEST,
 				WEIRD_REQUEST
 			} requestType = UNINVESTIGATED_REQUEST;
-			std::pair<int, int> path;
-			std::pair<int, int> contentType;
+			std::pair<int, int> path = {};
+			std::pair<int, int> contentType = {};
 			ServerReaction ending = ServerReaction::OK;
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
@@ -679,6 +679,8 @@ public:
 			auto restore = [this] () {
 				_state.reset();
 				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state.path = {};
+				_state.contentType = {};
 			};
 
 			// Locate the header's span
-- 
2.43.0


From 2efaea785cab8d7ec6221d5f02938b1cdef99d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 31/96] fix: line ending in HTTP server's error response

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3bac7d0..14f403b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -791,7 +791,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From b3206dacf8b8200525f64de50fb81873b422e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 32/96] fix: no overflow when adding up sizes of HTTP headers
 and bodies

---
 bomba_http.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 14f403b..5c6300b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,7 +5,6 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
-#include <limits>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -122,8 +121,7 @@ struct HttpParseState {
 					attributeValue.remove_suffix(1);
 				const char* valueEnd = attributeValue.data() + attributeValue.size();
 				auto [numberEnd, error] = std::from_chars(attributeValue.data(), valueEnd, bodySize);
-				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0
-						|| bodySize > std::numeric_limits<int>::max() - position - 4) [[unlikely]] {
+				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0) [[unlikely]] {
 					return {ServerReaction::DISCONNECT, 0}; // Not a usable size
 				}
 			} else
@@ -698,7 +696,7 @@ public:
 				}
 			} else if (_state.bodySize == -1)
 				_state.bodySize = 0; // Other requests can do without a body
-			int consuming = _state.parsePosition + _state.bodySize;
+			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			if (std::ssize(input) < consuming) {
 				return {ServerReaction::READ_ON, input.size()};
 			}
@@ -923,7 +921,7 @@ public:
 					}
 				}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
+				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
 					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
 				}
 			
-- 
2.43.0


From 258b0e1fc97e398c1a1f525438ec028d91d90954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 33/96] fix: a HTTP header line without a colon or with a wrong
 ending does not absorb the following line

---
 bomba_http.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 5c6300b..08b0d3b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -77,6 +77,9 @@ struct HttpParseState {
 					attributeName = std::string_view(input.data() + attributeNameStart, position - attributeNameStart);
 					break;
 				}
+				if (input[position] == '\r') [[unlikely]] {
+					return {ServerReaction::DISCONNECT, 0}; // The line has no colon
+				}
 				if (input[position] <= 'Z' && input[position] >= 'A')
 					input[position] += 'a' - 'A';
 				position++;
@@ -111,9 +114,12 @@ struct HttpParseState {
 				}
 				position++;
 			}
-			if (position >= std::ssize(input)) {
+			if (position + 1 >= std::ssize(input)) {
 				return {ServerReaction::READ_ON, position - 1};
 			}
+			if (input[position + 1] != '\n') [[unlikely]] {
+				return {ServerReaction::DISCONNECT, 0};
+			}
 
 			// Use the data
 			if (attributeName == "content-length") {
-- 
2.43.0


From 3b132def2472b5b300298199a12295431a8a9232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 34/96] fix: HTTP server sends exactly one response to each
 request, with correct length above 2 GiB

---
 bomba_http.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 08b0d3b..eb93434 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -716,19 +716,20 @@ public:
 				struct WriteStarter : IWriteStarter {
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
+					bool mayBePartial = false;
 					int headerSize = 0;
 
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, 24> sizeBuffer;
+							sizeBuffer[0] = ' ';
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
@@ -749,9 +750,11 @@ public:
 						writer(view);
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
+						mayBePartial = true;
 						NonOwningStreamingBuffer<1024> streamingBuffer{writer};
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
+						mayBePartial = false;
 					}
 				};
 
@@ -760,7 +763,7 @@ public:
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -771,7 +774,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !correctResponseWriter.startedResponse) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -780,6 +783,8 @@ public:
 						}
 					}
 				} catch (...) {
+					if (correctResponseWriter.mayBePartial) // Can't be finished nor replaced by an error message
+						return {ServerReaction::DISCONNECT, 0};
 					constexpr std::string_view errorMessage =
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
@@ -787,8 +792,7 @@ public:
 					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 				}
 				if (success) {
-					if (correctResponseWriter.startedResponse) {
-					} else {
+					if (!correctResponseWriter.startedResponse) {
 						constexpr std::string_view noResponse = "HTTP/1.1 204 No Content\r\n\r\n";
 						writer(std::span<const char>(noResponse.begin(), noResponse.size()));
 					}
-- 
2.43.0


From b89a00a950aaff77056ce11248712adc5f7bd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 35/96] fix: HTTP client survives responses without body,
 incomplete and malformed responses and polling

---
 bomba_http.hpp | 84 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index eb93434..3d29646 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 #include <charconv>
+#include <exception>
 
 // Good HTTP protocol description: https://www3.ntu.edu.sg/home/ehchua/programming/webprogramming/HTTP_Basics.html
 // Good testing site: http://www.ptsv2.com/
@@ -850,13 +851,38 @@ class HttpClient : public IRpcResponder {
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
-			has = true;
-			return true;
+		_client.tryToGetResponse(token, [&, this] (std::span<char> input, bool identified)
+					-> std::tuple<ServerReaction, RequestToken, int64_t> {
+			return findResponse(token, input, identified, [&] (std::span<char>, bool) {
+				has = true;
+			});
 		});
 		return has;
 	}
 
+	std::tuple<ServerReaction, RequestToken, int64_t> findResponse(RequestToken token, std::span<char> input, bool identified,
+				Callback<void(std::span<char> message, bool success)> reader) {
+		ParseState state; // Can't be kept between calls because the input may begin elsewhere
+		auto [reaction, position] = state.parse(input);
+		if (reaction != ServerReaction::OK)
+			return {reaction, RequestToken{}, position};
+
+		int bodySize = std::max(0, state.bodySize); // If there is no size, there is no body
+		int64_t end = int64_t(state.parsePosition) + bodySize;
+		if (std::ssize(input) < end)
+			return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+
+		if (!identified) {
+			_lastTokenRead.id++; // They arrive in the order of requests
+			if (token != _lastTokenRead)
+				return {ServerReaction::WRONG_REPLY, _lastTokenRead, end};
+		}
+
+		reader(std::span<char>(input.data() + state.parsePosition, bodySize),
+				(state.resultCode >= 200 && state.resultCode < 300));
+		return {ServerReaction::OK, token, end};
+	}
+
 	struct ParseState : Detail::HttpParseState {
 		int resultCode = 0;
 
@@ -916,40 +942,36 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		bool malformed = false;
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+		std::exception_ptr thrown; // If processing it fails, it still needs to be removed from the stream
+#endif
 		while (!done) {
-			ParseState state;
 			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
-				// Locate the header's span
-				if (state.bodySize == -1) {
-					auto [reaction, position] = state.parse(input);
-					if (reaction == ServerReaction::DISCONNECT) {
-						done = true;
+				auto result = findResponse(token, input, identified, [&] (std::span<char> message, bool success) {
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+					try {
+						reader(message, success);
+					} catch (...) {
+						thrown = std::current_exception();
 					}
-					if (reaction != ServerReaction::OK) {
-						return {reaction, RequestToken{}, position};
-					}
-				}
-
-				if (state.bodySize > 0 && std::ssize(input) < int64_t(state.parsePosition) + state.bodySize) {
-					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
-				}
-			
-				if (!identified && token != RequestToken{ _lastTokenRead.id + 1}) {
-					int offset = state.parsePosition + std::max(0, state.bodySize);
-					state = ParseState{};
-					_lastTokenRead.id++;
-					return {ServerReaction::WRONG_REPLY, _lastTokenRead, offset};
-				}					
-				done = true;
-
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
-						(state.resultCode >= 200 && state.resultCode < 300));
-				if (!identified)
-					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
+#else
+					reader(message, success);
+#endif
+				});
+				malformed = (std::get<0>(result) == ServerReaction::DISCONNECT);
+				if (malformed || std::get<0>(result) == ServerReaction::OK)
+					done = true;
+				return result;
 			});
 		}
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+		if (thrown)
+			std::rethrow_exception(thrown);
+#endif
+		if (malformed)
+			remoteError("Malformed response");
 	}
 };
 
-- 
2.43.0


From 4640c4c142e36bb548395869684cd61bff6f353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 36/96] fix: HTTP client sends requests to the path of the
 called method

---
 bomba_http.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3d29646..bb28964 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -828,13 +828,15 @@ class HttpClient : public IRpcResponder {
 
 	RequestToken send(UserId, const IRemoteCallable* method,
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
-		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
+		LocalStringType resource;
+		resource += '/';
+		resource += PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, resource);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		getResponse(token, [&] (std::span<char> data, bool success) {
@@ -903,12 +905,14 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view resource = "/") {
 		_lastTokenWritten.id++;
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
-		written += correctIntro;
+		written += "POST ";
+		written += resource;
+		written += " HTTP/1.1\r\nContent-Length: ";
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -918,8 +922,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, RequestToken{_lastTokenWritten});
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
+				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		return _lastTokenWritten;
-- 
2.43.0


From 221e41df467a7365e1fe64034410c053ec7a3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 37/96] fix: separators longer than one character in paths of
 remote callables

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 3837bcd..7b886a6 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -813,10 +813,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			auto next = path.end();
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
-						end += i;
+						next = end + i + 1;
 						goto foundSeparator;
 					}
 				}
@@ -827,8 +828,7 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			start = next;
 		}
 		return current;
 	}
-- 
2.43.0


From 94bdf894e956a62b3b635b1f669fc2f880b163b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 38/96] fix: synchronous clients wait for the rest of
 incomplete responses and keep responses found by polling

---
 bomba_sync_client.hpp   | 35 +++++++++++++++++++++--------------
 tls/tls_sync_client.hpp | 35 +++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..e258e2c 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -33,16 +33,34 @@ class SyncNetworkClient : public ITcpClient {
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
 			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT) {
+				if constexpr(doWait)
+					_responses.erase(found); // Won't be needed again
 				return;
+			}
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// There may be whole responses left from the previous time
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) {
+					// Will be read later, polling does not process it
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				}
+				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.available() == 0)
@@ -54,17 +72,6 @@ class SyncNetworkClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..b0245ec 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -39,16 +39,34 @@ class TlsSyncClient : public ITcpClient {
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
 			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT) {
+				if constexpr(doWait)
+					_responses.erase(found); // Won't be needed again
 				return;
+			}
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// There may be whole responses left from the previous time
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) {
+					// Will be read later, polling does not process it
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				}
+				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.next_layer().available() == 0)
@@ -60,17 +78,6 @@ class TlsSyncClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
-- 
2.43.0


From 708a56c25e60a9302962aa557183fc7cd1528574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 39/96] fix: binary protocol client reports missing responses
 and removes those it failed to process

---
 bomba_binary_protocol.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 414d4d5..cd3e754 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -9,6 +9,7 @@
 #include <string_view>
 #include <charconv>
 #include <cstring>
+#include <exception>
 #include <cmath>
 #include <bit>
 
@@ -390,8 +391,29 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
-		return true;
+		bool found = false;
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+		std::exception_ptr thrown; // If processing it fails, it still needs to be removed from the stream
+#endif
+		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) {
+			found = true;
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+			try {
+				reader(input);
+			} catch (...) {
+				thrown = std::current_exception();
+			}
+#else
+			reader(input);
+#endif
+		}));
+#ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
+		if (thrown)
+			std::rethrow_exception(thrown);
+#endif
+		if (!found)
+			remoteError("Response was not received");
+		return found;
 	}
 	bool hasResponse(RequestToken token) override {
 		bool hasIt = false;
-- 
2.43.0


From 49059d8ebd0aa1f08d4960385f9bc2cb34bf2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 40/96] fix: JSON-RPC server writes the request's id once and
 only if it is valid

---
 bomba_json_rpc.hpp | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 0d940f2..c6be771 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -41,25 +41,35 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		bool idWritten = false;
 
 		auto writeId = [&] {
-			responding = true;
-			onResponseStarted();
-			output.startWritingObject(noFlags, 3);
-			output.introduceObjectMember(noFlags, "jsonrpc", 0);
-			output.writeString(noFlags, "2.0");
-			output.introduceObjectMember(noFlags, "id", 1);
+			auto start = [&] {
+				responding = true;
+				onResponseStarted();
+				output.startWritingObject(noFlags, 3);
+				output.introduceObjectMember(noFlags, "jsonrpc", 0);
+				output.writeString(noFlags, "2.0");
+				output.introduceObjectMember(noFlags, "id", 1);
+			};
 
+			// Don't start responding before successfully reading it
 			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				int64_t id = input.readInt(noFlags);
+				start();
+				output.writeInt(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				std::string_view id = input.readString(noFlags);
+				start();
+				output.writeString(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_FLOAT) {
+				double id = input.readFloat(noFlags);
+				start();
+				output.writeFloat(noFlags, id);
 			} else {
-				input.skipObjectElement(noFlags);
+				if (identified == IStructuredInput::TYPE_NULL)
+					input.readNull(noFlags);
+				else
+					input.skipObjectElement(noFlags);
+				start();
 				output.writeNull(noFlags);
 			}
 		};
@@ -110,7 +120,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 						return false;
 					}
 				} else if (*nextName == "id") {
-					if (!called) {
+					if (!called && !responding) {
 						writeId();
 						if (method && paramsPosition) {
 							input.restorePosition(noFlags, call());
-- 
2.43.0


From 01b7ff9aa9a388efa9f2cc672969fdb2a403847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 41/96] fix: JSON-RPC server responds to all requests with an
 id, wherever the id is, with either a result or an error

---
 bomba_json_rpc.hpp | 70 +++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index c6be771..406d8dd 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -37,8 +37,12 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		constexpr auto noFlags = Json::Output::Flags::NONE;
 		bool failed = false;
 		bool responding = false;
+		bool called = false;
+		bool malformed = false;
+		bool resultIntroduced = false;
+		LocalStringType errorMessage;
+		JsonRpcError errorCode = JsonRpcError::INTERNAL_ERROR;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
 
 		auto writeId = [&] {
 			auto start = [&] {
@@ -74,21 +78,25 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			}
 		};
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
-			failed = true;
-			if (!responding)
-				return;
-
+			if (!failed) {
+				failed = true;
+				errorMessage.clear();
+				errorMessage += message;
+				errorCode = errorType;
+			}
+		};
+		auto writeError = [&] {
 			output.introduceObjectMember(noFlags, "error", 2);
 			auto errorWritten = output.writeObject(2);
-			errorWritten.writeInt("code",  int(errorType));
-			errorWritten.writeString("message", message);
+			errorWritten.writeInt("code",  int(errorCode));
+			errorWritten.writeString("message", errorMessage);
 		};
 
 		try {
 			const IRemoteCallable* method = nullptr;
-			bool called = false;
 			auto call = [&] () {
 				auto introduceResult = [&] () {
+					resultIntroduced = true;
 					if (responding)
 						output.introduceObjectMember(noFlags, "result", 2);
 				};
@@ -98,12 +106,15 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					if (paramsPosition) {
 						input.restorePosition(noFlags, paramsPosition);
 					}
+					bool success = false;
 					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
+						success = method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
 					else {
 						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
+						success = method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 					}
+					if (!success && !failed && !resultIntroduced) [[unlikely]]
+						introduceError("Not a method", JsonRpcError::METHOD_NOT_FOUND);
 				}
 				return formerPosition;
 			};
@@ -113,44 +124,46 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			// * finding id starts the response, finding params stores their position and finding method causes its lookup
 			// * it's called immediately when method, params and id are all known
 			// * if something is missing, it's called after the loop
+			// * if something is wrong, reading continues because id may follow
 			input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
 				if (*nextName == "jsonrpc") {
 					if (input.readString(noFlags) != "2.0") [[unlikely]] {
 						introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
-						return false;
 					}
 				} else if (*nextName == "id") {
 					if (!called && !responding) {
 						writeId();
-						if (method && paramsPosition) {
+						if (method && paramsPosition && !failed) {
 							input.restorePosition(noFlags, call());
 						}
 					} else
 						input.skipObjectElement(noFlags);
 				} else if (*nextName == "method") {
-					if (!method) {
+					if (!method && !failed) {
 						auto path = input.readString(noFlags);
 						method = PathWithSeparator<".", LocalStringType>::findCallable(path, &_callable);
 						if (!method) [[unlikely]] {
 							introduceError("Method not known", JsonRpcError::METHOD_NOT_FOUND);
-						}
-						if (responding && paramsPosition) {
+						} else if (responding && paramsPosition) {
 							input.restorePosition(noFlags, call());
 						}
 					} else
 						input.skipObjectElement(noFlags);
 				} else if (*nextName == "params") {
-					paramsPosition = input.storePosition(noFlags);
-					if (method && responding) {
-						call();
-					} else {
-						input.skipObjectElement(noFlags);
+					auto position = input.storePosition(noFlags);
+					if (!called && !failed) {
+						paramsPosition = position;
+						if (method && responding) {
+							call();
+						}
 					}
+					input.restorePosition(noFlags, position); // It might have been read only partially
+					input.skipObjectElement(noFlags);
 				} else [[unlikely]] {
 					introduceError("Unexpected member in request", JsonRpcError::INVALID_REQUEST);
-					return false;
+					input.skipObjectElement(noFlags);
 				}
-				return !failed;
+				return true;
 			});
 			if (!failed && !called) {
 				if (!method) [[unlikely]] {
@@ -159,6 +172,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 				input.restorePosition(noFlags, call());
 			}
 		} catch (ParseError& e) {
+			malformed = !called; // Otherwise it's the arguments that are wrong
 			introduceError(e.what(), JsonRpcError::PARSE_ERROR);
 		} catch (RemoteError& e) {
 			introduceError(e.what(), JsonRpcError::INVALID_PARAMS);
@@ -166,7 +180,19 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			introduceError(e.what(), JsonRpcError::INTERNAL_ERROR);
 		}
 
+		if (malformed && !responding && !resultIntroduced) { // The id is not known
+			responding = true;
+			onResponseStarted();
+			output.startWritingObject(noFlags, 3);
+			output.introduceObjectMember(noFlags, "jsonrpc", 0);
+			output.writeString(noFlags, "2.0");
+			output.introduceObjectMember(noFlags, "id", 1);
+			output.writeNull(noFlags);
+		}
+
 		if (responding) {
+			if (failed && !resultIntroduced)
+				writeError();
 			output.endWritingObject(noFlags);
 		}
 
-- 
2.43.0


From 9e57aa2417e6d486d5a9135ac5fd3223c9886e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 42/96] fix: JSON-RPC server does not respond twice to requests
 that are neither objects nor arrays

---
 bomba_json_rpc.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 406d8dd..14ec671 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -208,14 +208,14 @@ public:
 			return false;
 		}
 
-		bool result = false;
-		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
-			constexpr auto noFlags = Json::Output::Flags::NONE;
+		constexpr auto noFlags = Json::Output::Flags::NONE;
+		typename Json::Input input(std::string_view(request.data(), request.size()));
+		auto inputType = input.identifyType(noFlags);
+		if (inputType != IStructuredInput::TYPE_ARRAY && inputType != IStructuredInput::TYPE_OBJECT)
+			return false; // The request was total nonsense
 
-			typename Json::Input input(std::string_view(request.data(), request.size()));
+		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			typename Json::Output output(response);
-
-			auto inputType = input.identifyType(noFlags);
 			if (inputType == IStructuredInput::TYPE_ARRAY) {
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
@@ -234,13 +234,11 @@ public:
 				}
 				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
+			} else {
 				respondInternal(input, output, {});
-				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return true; // Http should not report an error here
 	}
 };
 
-- 
2.43.0


From 4de0679f5ff429850c143314a1408072b1687471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 43/96] fix: JSON-RPC client reports responses that contain no
 result

---
 bomba_json_rpc.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 14ec671..272e24f 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -286,10 +286,13 @@ public:
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) final override {
 		bool retval = false;
 		_upper.getResponse(token, [&reader, &retval, token] (std::span<char> message, bool success) {
-			if (!success)
+			if (!success) {
+				remoteError("Server did not respond with OK");
 				return false;
+			}
 			typename Json::Input input(std::string_view(message.data(), message.size()));
 			bool okay = true;
+			bool hasResult = false;
 			auto fail = [&okay] (std::string_view problem) {
 				parseError(problem);
 				okay = false;
@@ -301,7 +304,9 @@ public:
 						return false;
 					}
 				} else if (*nextName == "id") {
-					if (input.readInt(noFlags) != token.id) {
+					if (input.identifyType(noFlags) == IStructuredInput::TYPE_NULL) {
+						input.readNull(noFlags); // The server was not able to read the id, an error should follow
+					} else if (input.readInt(noFlags) != token.id) {
 						fail("Out of order response");
 					}
 				} else if (*nextName == "error") {
@@ -318,6 +323,7 @@ public:
 					okay = false;
 					return false;
 				} else if (*nextName == "result") {
+					hasResult = true;
 					reader(input);
 				} else {
 					fail("Unknown toplevel element");
@@ -325,7 +331,9 @@ public:
 				}
 				return true;
 			});
-			retval = input.good;
+			if (okay && !hasResult)
+				fail("Response has neither a result nor an error");
+			retval = input.good && okay;
 			return okay;
 		});
 		return retval;
-- 
2.43.0


From 39d61f6c23e027b16d217b03f309a5c0aa24a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 44/96] fix: do not return uninitialised values if there is no
 response

---
 bomba_rpc_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index b15dd13..8ac0a02 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -506,7 +506,7 @@ struct RpcLambdaInformationHolder {
 					in.readNull(Flags);
 				});
 			} else {
-				Returned result;
+				Returned result{};
 				responder->getResponse(token, [&](IStructuredInput& in) {
 					TypedSerialiser<Returned>::deserialiseMember(in, result, Flags);
 				});
-- 
2.43.0


From b74ab2425f4b24a39cafe84495e5209b640a924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 45/96] fix: UTF-8 encoding of U+0800 in forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bb28964..d2feef5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -184,7 +184,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
-- 
2.43.0


From 631cb6eeeac840be9001d55690d2a0e482a21cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 46/96] fix: texts that look like HTML entities are not changed
 by form encoding

---
 bomba_http.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index d2feef5..a895719 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -250,6 +250,8 @@ void mangleHttpResponse(std::string_view input, StringType& output) {
 		unsigned char letter = *reinterpret_cast<const unsigned char*>(&input[i]);
 		if (letter == ' ')
 			output += '+';
+		else if (letter == '&' && i + 1 < std::ssize(input) && input[i + 1] == '#')
+			output += "%26%2338%3b"; // Would be decoded as an entity if not encoded as an entity itself
 		else if (letter <= 0x7f) [[likely]]
 			encodeOne(letter);
 		else {
-- 
2.43.0


From d247f9f94086ee15f2913b9624a383585ace8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 47/96] fix: position after reading a float from a form

---
 bomba_http.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index a895719..922f359 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -362,7 +362,7 @@ struct HtmlMessageEncoding {
 		int64_t readInt(Flags) final override {
 			int end = getEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
+			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + end, result);
 			_position = end;
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
@@ -372,7 +372,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
-- 
2.43.0


From 0027dbe4f0db65c81efd67f0b54849ea1abed040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 48/96] fix: identify types of values in forms

---
 bomba_http.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 922f359..939662b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -337,14 +337,14 @@ struct HtmlMessageEncoding {
 			bool exponentWasUsed = false;
 			bool decimalWasUsed = false;
 			bool canBeInt = true;
+			bool hasDigit = false;
 			for (; demangledPos < std::ssize(demangled); demangledPos++) {
 				if (demangled[demangledPos] == 'e' || demangled[demangledPos] == 'E') {
-					if (exponentWasUsed) [[unlikely]]
+					if (exponentWasUsed || !hasDigit) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
-						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					hasDigit = false; // The exponent needs its own
+					if (demangledPos + 1 < std::ssize(demangled) && (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+'))
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -352,10 +352,13 @@ struct HtmlMessageEncoding {
 						return TYPE_STRING;
 					decimalWasUsed = true;
 					canBeInt = false;
-				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				} else if (demangled[demangledPos] >= '0' && demangled[demangledPos] <= '9') {
+					hasDigit = true;
+				} else
 					return TYPE_STRING;
 			}
+			if (!hasDigit)
+				return TYPE_STRING;
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
 		}
 
-- 
2.43.0


From 14cad480129a3fd44445f35537e0e4a7168232c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 49/96] fix: separate elements of forms correctly if some
 values are empty, missing or not read

---
 bomba_http.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 939662b..f839cc5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -407,25 +407,26 @@ struct HtmlMessageEncoding {
 					fail("Type doesn't support nested object");
 			_objectStarted = true;
 			int index = 0;
-			for (; _position < std::ssize(_contents); _position++) {
-				if (_contents[_position] == '&')
+			while (_position < std::ssize(_contents)) {
+				if (_contents[_position] == '&') { // Separates elements
 					_position++;
+					continue;
+				}
 				int start = _position;
-				while (_position < std::ssize(_contents) && _contents[_position] != '=')
+				while (_position < std::ssize(_contents) && _contents[_position] != '=' && _contents[_position] != '&')
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents) && _contents[_position] == '=')
+					_position++; // Otherwise the value is empty
 				onEach(_demangled, index);
+				_position = getEnd(); // The value might not have been read
 				index++;
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
-			while (_position < std::ssize(_contents) && _contents[_position] != '&')
-				_position++;
+			_position = getEnd();
 		}
 
 		bool readOptional(Flags, Callback<> readValue) override {
-- 
2.43.0


From 203a4e9a46231dba362f28c6f6d851a1e94cb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 50/96] fix: buffer for numbers in forms too small for the
 longest ones

---
 bomba_http.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f839cc5..bfa31bb 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -449,10 +449,10 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32;
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto written = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			_contents += std::string_view(bytes.data(), written.ptr - bytes.data());
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From db059d112b58dcf68e0715cade0998f64d6e2585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 51/96] fix: encode names of members of forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index bfa31bb..19694e0 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -495,7 +495,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From 756dcba7abd90c448012e2e89a7bfa970d329681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 52/96] fix: descriptions of dynamic objects with nested
 objects

---
 bomba_dynamic_object.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index f8c54d2..3fce7da 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -101,11 +101,20 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		if (_info)
+			_info->subtypesAdder(filler);
+		else
+			operator->()->listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		if (_info)
+			_info->unnamedChildAdder(name, filler);
+		else {
+			filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nestedFiller) {
+				operator->()->generateDescription(nestedFiller);
+			});
+		}
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
-- 
2.43.0


From f88b964a8f46d37fe1a022c88c6c1c238e3383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 53/96] fix: negative indexes of children of dynamic objects

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 3fce7da..b899469 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -173,7 +173,7 @@ public:
 		return nullptr;
 	}
 	const IRemoteCallable* getChild(int index) const override {
-		if (index < std::ssize(_contents))
+		if (index >= 0 && index < std::ssize(_contents))
 			return _contents[index].second.operator->();
 		else
 			return nullptr;
-- 
2.43.0


From cfc385efd249e75e10dd65fd790a621cb654105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 54/96] fix: doubled separators in JSON-WSP descriptions of
 deeply nested methods

---
 bomba_json_wsp_description.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..e1f2f2a 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -154,10 +154,7 @@ class JsonWspDescription : public IRemoteCallableDescriptionFiller {
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
-		if (!prefix.empty()) {
-			_path += prefix;
-			_path += '.';
-		}
+		_path += prefix; // It already ends with a separator if it's not empty
 		if (!name.empty()) {
 			_path += name;
 			_path += '.';
-- 
2.43.0


From eabb336407714cce18328226f06f1a62ad2dac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 55/96] fix: JSON-WSP parameters following an optional one are
 not necessarily optional

---
 bomba_json_wsp_description.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index e1f2f2a..9535baa 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -110,6 +110,7 @@ public:
 		result.writeInt("def_order", _argCount);
 		writeJsonWspDocumentation(result, description);
 		result.introduceMember("type");
+		_optional = false;
 		writer();
 		result.writeBool("optional", _optional);
 	}
-- 
2.43.0


From 207573ef6a9667e1fda44a8415a68cdbc758bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 56/96] fix: file servers can serve files without extensions

---
 bomba_download_server.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..1eb9420 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -48,6 +48,8 @@ protected:
 		auto foundExtension = _extensions.find(std::string(extension));
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.size() < 2) {
+			return "application/octet-stream"; // No extension
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +90,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From 4dc2aadaba87011ad047f8236af8b233cc490eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 57/96] fix: DynamicFileServer does not serve files outside its
 folder if the path is not formed as usual

---
 bomba_download_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 1eb9420..77733fa 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -111,7 +111,8 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			// The rest must not be an absolute path, it would replace the root
+			if (editedPath[0] != '/' || editedPath.starts_with("//") || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
-- 
2.43.0


From f1adc33ee6e91a36fb937df974f77733ee89fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 58/96] fix: DynamicFileServer handles files that cannot be
 read and very large ones

---
 bomba_download_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 77733fa..015a434 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -127,13 +127,16 @@ public:
 		}
 		uintmax_t size = std::filesystem::file_size(fullPath);
 
-		std::ifstream file(fullPath);
+		std::ifstream file(fullPath, std::ios::binary);
+		if (!file)
+			return false;
 		outputProvider.writeKnownSize(extensionDescription(fullPath.extension().string()), size, [&] (GeneralisedBuffer& output) {
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
-				file.read(buffer.data(), amount);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
+				if (!file.read(buffer.data(), amount)) // Must not send uninitialised data instead
+					throw std::runtime_error("Could not read the file");
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
 			}
-- 
2.43.0


From e3890330751724c2bad70a2a19fb65bdf9552826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 59/96] fix: TCP server survives failing connections and sends
 whole responses

---
 bomba_tcp_server.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 11fcc40..b2c99aa 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -191,9 +191,22 @@ class TcpServer {
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
-			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
-			});
+			// A problem of one connection must not break the whole server
+			try {
+				return _responder.respond(data, [this] (std::span<const char> output) {
+#ifdef MSG_NOSIGNAL
+					constexpr auto flags = Net::socket_base::message_flags(MSG_NOSIGNAL);
+#else
+					constexpr auto flags = Net::socket_base::message_flags();
+#endif
+					while (!output.empty()) { // It may send only a part
+						auto sent = _socket.send(Net::buffer(output.data(), output.size()), flags);
+						output = output.subspan(sent);
+					}
+				});
+			} catch (...) {
+				return {ServerReaction::DISCONNECT, 0};
+			}
 		}
 
 		void notifyMessageWasParsed() override {
-- 
2.43.0


From 1656d6e64f9c40e1f74c11125c5dc79e50d39c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 60/96] fix: conversion of 16-bit floating point numbers

---
 bomba_core.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 7b886a6..f2196b5 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -5,6 +5,7 @@
 #include <string_view>
 #include <span>
 #include <tuple>
+#include <bit>
 #include <cstring>
 
 #ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
@@ -92,13 +93,30 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 
 struct Float16Placeholder {
 	uint16_t data;
-	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+	Float16Placeholder& operator=(float value) { // Rounds towards zero
+		uint32_t asInt = std::bit_cast<uint32_t>(value);
+		int exponent = int((asInt >> 23) & 0xff) - 127 + 15;
+		uint32_t mantissa = asInt & 0x7fffff;
+		data = (asInt >> 16) & 0x8000;
+		if (exponent >= 31) // Infinity, not a number or too large
+			data |= 0x7c00 | ((exponent == 0xff - 127 + 15 && mantissa) ? 0x200 : 0);
+		else if (exponent > 0)
+			data |= (exponent << 10) | (mantissa >> 13);
+		else if (exponent > -10) // Subnormal
+			data |= (mantissa | 0x800000) >> (14 - exponent);
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		uint32_t sign = (data & 0x8000) << 16;
+		uint32_t exponent = (data & 0x7c00) >> 10;
+		uint32_t mantissa = data & 0x03ff;
+		if (exponent == 31) // Infinity or not a number
+			return std::bit_cast<float>(sign | 0x7f800000 | (mantissa << 13));
+		if (exponent == 0) { // Subnormal or zero
+			float value = float(mantissa) / (1 << 24);
+			return sign ? -value : value;
+		}
+		return std::bit_cast<float>(sign | ((exponent - 15 + 127) << 23) | (mantissa << 13));
 	}
 };
 
-- 
2.43.0


From 811143444fa557219d687b19e7248a4dbedd86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 61/96] fix: a polled future without a value can still wait for
 the response and report its error

---
 bomba_rpc_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 8ac0a02..f4d31f5 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -342,7 +342,7 @@ public:
 	bool is_ready() const {
 		if (_done)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token); // It still has to be read by get()
 	}
 };
 
-- 
2.43.0


From ec271b0f2ac506516944ec62d879fd616b8d02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 62/96] fix: a future whose response was an error does not wait
 for it again

---
 bomba_rpc_object.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index f4d31f5..e9f5ed6 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -279,10 +279,11 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable bool _read = false; // If reading it failed, the response will not come again
 	using Base = Detail::FutureBase<Returned>;
 
 	void cleanup() {
-		if (Base::_responder && !_value) {
+		if (Base::_responder && !_read) {
 #ifndef BOMBA_ALTERNATIVE_ERROR_HANDLING
 			try {
 				get();
@@ -294,6 +295,7 @@ class Future : Detail::FutureBase<Returned> {
 		Base::_reader = nullptr;
 		Base::_responder = nullptr;
 		_value = std::nullopt;
+		_read = false;
 	}
 public:
 	using Base::FutureBase;
@@ -304,17 +306,22 @@ public:
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_read, other._read);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
+		if (!_value) {
+			if (_read)
+				remoteError("The response was already read");
+			_read = true;
 			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+		}
 		return *_value;
 	}
 
 	bool is_ready() const {
-		if (_value)
+		if (_value || _read)
 			return true;
 		return Base::_responder->hasResponse(Base::_token);
 	}
@@ -328,15 +335,20 @@ template <>
 class Future<void> : Detail::FutureBase<void> {
 	using Base = Detail::FutureBase<void>;
 	mutable bool _done = false;
+	mutable bool _failed = false; // The response will not come again
 public:
 	using Base::FutureBase;
 	Future() : _done(true) {} // Was called locally
 
 	void get() const {
+		if (_failed)
+			remoteError("The response was already read");
 		if (_done)
 			return;
-		Base::_reader->readResponse(Base::_responder, Base::_token);
 		_done = true;
+		_failed = true;
+		Base::_reader->readResponse(Base::_responder, Base::_token);
+		_failed = false;
 	}
 
 	bool is_ready() const {
-- 
2.43.0


From bbf153b27c36926ad10d2350ea8a57c398dee5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 63/96] fix: RPC objects can be copied, assigned and moved into
 holders

---
 bomba_dynamic_object.hpp | 2 +-
 bomba_rpc_object.hpp     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index b899469..61af555 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index e9f5ed6..d6ffd12 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -834,6 +834,13 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 		auto parent = reinterpret_cast<Detail::RpcObjectCommon*>(reinterpret_cast<intptr_t>(this) - offset);
 		parent->addChild(this);
 	}
+	// If the object it's a member of is copied or moved, it's a member of the new one
+	RpcMember(const RpcMember& other) : RpcStatelessLambda<Func, Flags>(other) {
+		auto parent = reinterpret_cast<Detail::RpcObjectCommon*>(reinterpret_cast<intptr_t>(this)
+				+ (reinterpret_cast<intptr_t>(other.parent()) - reinterpret_cast<intptr_t>(&other)));
+		parent->addChild(this);
+	}
+	void operator=(const RpcMember&) {} // Assigning the object it's a member of doesn't change what it's a member of
 private:
 
 	constexpr static Detail::ChildGettingFunction childGetter = [] (const IRemoteCallable* parent, int offset) {
-- 
2.43.0


From 55413b8bfb970259111e62c1f3fa2eea0b9bcd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 64/96] fix: a malformed batch of JSON-RPC requests does not
 keep the server in an endless loop

---
 bomba_json_rpc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 272e24f..1fcb527 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -230,6 +230,8 @@ public:
 					if (!success) {
 						input.restorePosition(noFlags, previousPosition);
 						input.skipObjectElement(noFlags);
+						if (input.storePosition(noFlags).loc == previousPosition.loc) [[unlikely]]
+							parseError("Malformed batch of requests"); // Otherwise, it would never end
 					}
 				}
 				input.endReadingArray(noFlags);
-- 
2.43.0


From 097eb5decc7561626194b7fbab13772bed0ab694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 65/96] fix: calling a method without a result by a GET request
 with a form is not an internal error

---
 bomba_rpc_object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index d6ffd12..53d7c81 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -483,7 +483,8 @@ struct RpcLambdaInformationHolder {
 			if constexpr(std::is_same_v<Returned, void>) {
 				callInternal(std::make_index_sequence<argsSize>(), nullptr, input);
 				introduceResult();
-				result.writeNull(Flags);
+				// Formats without null don't need anything to be written
+				result.writeNull(SerialisationFlags::Flags(Flags | SerialisationFlags::EMPTY_IS_NULL));
 			} else {
 				Returned returned;
 				callInternal(std::make_index_sequence<argsSize>(), &returned, input);
-- 
2.43.0


From 6d0d008e983acfdff2443d98216f07b57b7d5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 66/96] fix: a synchronous client whose server disconnected
 does not wait for the response in an endless loop

---
 bomba_sync_client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index e258e2c..3cee211 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -71,6 +71,10 @@ class SyncNetworkClient : public ITcpClient {
 				remoteError(error.message().c_str());
 				break;
 			}
+			if (received == 0) { // Means end of stream
+				remoteError("Disconnected by the server");
+				break;
+			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
-- 
2.43.0


From eb0f19eb0ab62bd54982cd6f43fb6fd338d25fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 67/96] fix: a synchronous client is not killed by a signal
 when its server disconnected

---
 bomba_sync_client.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 3cee211..df65e7b 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -88,7 +88,12 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
+#ifdef MSG_NOSIGNAL
+			constexpr auto flags = Net::socket_base::message_flags(MSG_NOSIGNAL);
+#else
+			constexpr auto flags = Net::socket_base::message_flags();
+#endif
+			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())), flags);
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From 21e950f6a1e4b6822a063381dc859f3b12991cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 68/96] fix: describing a service in JSON-WSP does not write
 types used at multiple places multiple times

---
 bomba_json_wsp_description.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 9535baa..1f37fe1 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -8,6 +8,9 @@
 #include "bomba_json.hpp"
 #endif
 
+#include <string>
+#include <vector>
+
 // Most information gathered from: https://zims-en.kiwix.campusafrica.gos.orange.com/wikipedia_en_all_nopic/A/JSON-WSP
 
 namespace Bomba {
@@ -70,6 +73,7 @@ public:
 
 class JsonWspTypeDescription : public ISerialisableDescriptionFiller {
 	IStructuredOutput::ObjectFiller& _output;
+	std::vector<std::string> _described;
 	static constexpr SerialisationFlags::Flags noFlags = SerialisationFlags::NONE;
 
 public:
@@ -80,6 +84,11 @@ public:
 	}
 
 	void fillMembers(std::string_view name, Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		for (auto& described : _described) {
+			if (described == name)
+				return; // The same type can be used at multiple places
+		}
+		_described.emplace_back(name);
 		auto object = _output.writeObject(name);
 		JsonWspMembersDescription descriptor(object);
 		filler(descriptor);
-- 
2.43.0


From 162e06eb44466cbccbc0fda680ee36e30d8554d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 69/96] fix: types used by members in containers or by members
 of members are listed in descriptions

---
 bomba_core.hpp   | 7 +++++++
 bomba_object.hpp | 7 +------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f2196b5..3eb4aaf 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -985,6 +985,13 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool listing = false;
+		if (listing)
+			return; // The type contains itself
+		struct Guard {
+			Guard() { listing = true; }
+			~Guard() { listing = false; }
+		} guard;
 		Serialisable instance;
 		instance.listTypes(filler);
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
diff --git a/bomba_object.hpp b/bomba_object.hpp
index fcb1e5b..5b0d3d6 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -60,12 +60,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From 3f61d1da92cbc272d34bd26da6ac3c072b8b400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 70/96] fix: an array of optional elements is not described as
 an optional argument

---
 bomba_json_wsp_description.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 1f37fe1..ef1249b 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -9,6 +9,7 @@
 #endif
 
 #include <string>
+#include <utility>
 #include <vector>
 
 // Most information gathered from: https://zims-en.kiwix.campusafrica.gos.orange.com/wikipedia_en_all_nopic/A/JSON-WSP
@@ -107,6 +108,7 @@ static void writeJsonWspDocumentation(IStructuredOutput::ObjectFiller& output, s
 class JsonWspMethodDescription : public Detail::JsonWspTypicalDescriptions {
 	int& _argCount;
 	bool _optional = false;
+	bool _nested = false;
 
 public:
 	JsonWspMethodDescription(const JsonWspMethodDescription&) = default;
@@ -125,9 +127,16 @@ public:
 	}
 
 	void addOptional(Callback<void(IPropertyDescriptionFiller&)> filler) override {
-		_optional = true;
+		if (!_nested)
+			_optional = true;
 		filler(*this);
 	}
+
+	void addArray(Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		bool wasNested = std::exchange(_nested, true); // Optional elements don't make the argument optional
+		Detail::JsonWspTypicalDescriptions::addArray(filler);
+		_nested = wasNested;
+	}
 };
 
 class JsonWspReturnDescription : public Detail::JsonWspTypicalDescriptions {
-- 
2.43.0


From debf18e6a96f9ae477eaefd53517d4aaa6b38e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 71/96] fix: a form posted to an object that is not a method is
 not reported as successful

---
 bomba_http.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 19694e0..8c59844 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -556,8 +556,7 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		method->call(&input, nullOutput, {}, {});
-		return true;
+		return method->call(&input, nullOutput, {}, {});
 	}
 };
 
-- 
2.43.0


From d0952ae11b4c71e3cb8d14a5c5e5ecaddefbbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 72/96] fix: find members of objects that have a polymorphic
 base before Serialisable

---
 bomba_object.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 5b0d3d6..bc80beb 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -285,9 +285,9 @@ class Serialisable : public IDescribableSerialisable {
 				start++;
 			}
 #ifdef NO_DEFECT_REPORT_2118
-			result[i].offset = start;
+			result[i].offset = start - setupData.parentOffset;
 #else
-			offsets[i] = start;
+			offsets[i] = start - setupData.parentOffset; // The members are accessed through a pointer to Serialisable
 #endif
 		}
 
@@ -457,7 +457,8 @@ protected:
 					+ sizeof(Serialisable<Child>));
 			uint8_t garbageNumber = (_setupInstance->initState == InitialisationState::INITIALISING)
 					? garbageNumber1 : garbageNumber2;
-			memset(start, garbageNumber, sizeof(Child) - sizeof(Serialisable<Child>));
+			uint64_t end = reinterpret_cast<uint64_t>(_setupInstance->instance) + sizeof(Child); // There may be other bases before
+			memset(start, garbageNumber, end - reinterpret_cast<uint64_t>(start));
 		}
 	}
 	Serialisable(const Serialisable&) = default;
-- 
2.43.0


From 45fd92ee1380fb55a3d77bd76388297a21c4c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 73/96] fix: refuse binary calls of members whose index doesn't
 fit into the message rather than calling another member

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index cd3e754..223af21 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -10,6 +10,7 @@
 #include <charconv>
 #include <cstring>
 #include <exception>
+#include <limits>
 #include <cmath>
 #include <bit>
 
@@ -375,7 +376,10 @@ public:
 			if (depth >= MaxDepth) [[unlikely]] throw std::logic_error("Max depth exceeded, set a greater depth as template argument");
 			if (depth > 0)
 				memmove(&path[1], &path[0], depth);
-			path[0] = parent->childName(it).second;
+			int index = parent->childName(it).second;
+			if (index < 0 || index > std::numeric_limits<uint8_t>::max()) [[unlikely]]
+				throw std::logic_error("Only the first 256 members of an object can be called");
+			path[0] = index;
 		}
 		for (int i = 0; i < depth; i++)
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
-- 
2.43.0


From 448d1f73736f8fa37ec1528ff8afeee1cf0fbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 74/96] fix: objects of one RpcObject class can be first
 constructed by several threads at once

---
 bomba_rpc_object.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 53d7c81..cb16ebd 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -5,6 +5,7 @@
 #include "bomba_core.hpp"
 #endif
 
+#include <atomic>
 #include <csetjmp>
 
 #if (_MSC_VER && !__INTEL_COMPILER) || (__clang__ && !defined(BOMBA_VERIFY_GCC_PATH))
@@ -90,7 +91,7 @@ struct IResponseReader {
 
 	template <typename Parent, int Index>
 	struct SubclassAccess {
-		friend int& childOffset(SubclassAccess<Parent, Index>);
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>);
 		friend constexpr auto childName(SubclassAccess<Parent, Index>);
 		friend constexpr SerialisationFlags::Flags flagsOf(SubclassAccess<Parent, Index>);
 		friend constexpr ChildGettingFunction childGetter(SubclassAccess<Parent, Index>);
@@ -106,8 +107,8 @@ struct IResponseReader {
 			ChildGettingFunction ChildGetter, ChildNameGettingFunction ChildNameGetter,
 			SubtypesAddingFunction SubtypesAdder, ChildDescribingFunction ChildDescriptor>
 	struct SubclassSaver {
-		friend int& childOffset(SubclassAccess<Parent, Index>) {
-			static int saved = -1;
+		friend std::atomic<int>& childOffset(SubclassAccess<Parent, Index>) {
+			static std::atomic<int> saved = -1; // Can be first set by several threads at once
 			return saved;
 		}
 		friend constexpr auto childName(SubclassAccess<Parent, Index>) {
@@ -152,7 +153,7 @@ struct IResponseReader {
 	};
 
 	template <typename Parent, int Index>
-	constexpr int& getChildOffset() {
+	constexpr std::atomic<int>& getChildOffset() {
 		return childOffset(SubclassAccess<Parent, Index>());
 	}
 
@@ -827,7 +828,7 @@ struct RpcMember : public RpcStatelessLambda<Func, Flags> {
 #else
 		constexpr int parentIndex = Detail::AddChildRpc<ParentObject, 0, Name, Flags, childGetter, childNameGetter<Name>,
 				ParentClass::info.subtypesAdder, ParentClass::template childAdder<Name> >::index;
-		int& offset = Detail::getChildOffset<ParentObject, parentIndex>();
+		std::atomic<int>& offset = Detail::getChildOffset<ParentObject, parentIndex>();
 		if (offset == -1) [[unlikely]] {
 			offset = reinterpret_cast<intptr_t>(this) - reinterpret_cast<intptr_t>(ParentObject::setupInstance);
 		}
-- 
2.43.0


From 541a50c1e80ce568dd0be0525c6d75cf6e13bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 75/96] fix: calling methods of one object from several threads
 does not write into it

---
 bomba_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 3eb4aaf..fa3d8d8 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -774,7 +774,7 @@ protected:
 	}
 	IRpcResponder* getResponder() const {
 		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
+			return _parent->getResponder(); // Not remembered, other threads may be reading it
 		return _responder;
 	}
 
-- 
2.43.0


From b690004882221f1254f08f5df939904569a22510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 76/96] fix: lock the cache while a generated file is added to
 it

---
 bomba_download_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 015a434..8080b74 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -222,6 +222,7 @@ public:
 		reloadInternal();
 	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
+		std::lock_guard lock(_mutex);
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-- 
2.43.0


From ed5aeb63bf3034d7168db5549c64e4c5b1e85081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 77/96] fix: average response time before any response is zero,
 not a division by zero

---
 bomba_tcp_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index b2c99aa..14e852e 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -267,6 +267,8 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
+		if (_totalResponses == 0)
+			return std::chrono::nanoseconds(0);
 		return _totalResponseTime / _totalResponses;
 	}
 };
-- 
2.43.0


From 621499d09dba14d2fabb5001820d7d49f1316e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 78/96] fix: a TCP server run by several threads closes the
 right sessions and counts without data races

---
 bomba_tcp_server.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 14e852e..ef0aa54 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -6,6 +6,7 @@
 #endif
 
 #include <experimental/net>
+#include <atomic>
 #include <vector>
 #include <chrono>
 
@@ -147,8 +148,8 @@ class TcpServer {
 	Net::io_context _context;
 	Net::ip::tcp::endpoint _endpoint;
 	Net::ip::tcp::acceptor _acceptor = {_context, _endpoint};
-	std::chrono::nanoseconds _totalResponseTime = std::chrono::nanoseconds(0);
-	int64_t _totalResponses = 0;
+	std::atomic<int64_t> _totalResponseTime = 0; // In nanoseconds
+	std::atomic<int64_t> _totalResponses = 0;
 
 	struct Session : ITcpServerSession {
 		Net::ip::tcp::socket _socket;
@@ -171,23 +172,20 @@ class TcpServer {
 
 				bool expectingMore = _buffer.receive(*this, error, length);
 
-				if (expectingMore) {
-					readSome();
-				}
 				auto endTime = std::chrono::steady_clock::now();
-				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime);
+				_parent._totalResponseTime += std::chrono::duration_cast<std::chrono::nanoseconds>(endTime - startTime).count();
 
-				if (!expectingMore) {
+				if (expectingMore) {
+					readSome(); // Nothing may follow, another thread may already be destroying this
+				} else {
 					cancel();
-					return;
 				}
-
 			});
 		}
 
 		void cancel() { // MUST RETURN AFTER CALLING cancel(), IT DESTROYS this
 			_socket.close();
-			_parent.destroySession(_index);
+			_parent.destroySession(*this);
 		}
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
@@ -235,8 +233,9 @@ class TcpServer {
 		});
 	}
 
-	void destroySession(int index) {
+	void destroySession(Session& session) {
 		std::lock_guard lock(_sessionsLock);
+		int index = session._index; // Other threads may change it when not holding the lock
 		if (index < std::ssize(_sessions) - 1) [[likely]] {
 			_sessions.back()->_index = index;
 			std::swap(_sessions[index], _sessions.back());
@@ -267,9 +266,10 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		if (_totalResponses == 0)
+		int64_t responses = _totalResponses;
+		if (responses == 0)
 			return std::chrono::nanoseconds(0);
-		return _totalResponseTime / _totalResponses;
+		return std::chrono::nanoseconds(_totalResponseTime / responses);
 	}
 };
 
-- 
2.43.0


From 3a97c065d63cbd79015b909bc608532a3436d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 79/96] fix: keep accepting connections after accepting one has
 failed

---
 bomba_tcp_server.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index ef0aa54..67b20b2 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -220,11 +220,7 @@ class TcpServer {
 
 	void startSession() {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
-			if (error) {
-//				std::cout << "Error: " << error.message() << std::endl;
-				return;
-			}
-			{
+			if (!error) { // A failure to accept one connection must not prevent accepting others
 				std::lock_guard lock(_sessionsLock);
 				int index = _sessions.size();
 				_sessions.emplace_back(std::make_unique<Session>(std::move(socket), _responder, *this, index));
-- 
2.43.0


From bb41573d2241f883ec4f1ab2178914e93326ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 80/96] fix: send no error response after a finished response

---
 bomba_http.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 8c59844..4f08ee4 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -722,6 +722,7 @@ public:
 					Callback<void(std::span<const char>)> writer;
 					bool startedResponse = false;
 					bool mayBePartial = false;
+					bool finishedResponse = false;
 					int headerSize = 0;
 
 
@@ -753,6 +754,7 @@ public:
 								const_cast<char*>(&view[sizeof(correctIntro) + sizeof(unsetSize)]),
 								view.size() - headerSize);
 						writer(view);
+						finishedResponse = true;
 					}
 					void writeKnownSize(std::string_view resourceType, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
 						mayBePartial = true;
@@ -760,6 +762,7 @@ public:
 						startCorrectResponse(streamingBuffer, resourceType, size);
 						filler(streamingBuffer);
 						mayBePartial = false;
+						finishedResponse = true;
 					}
 				};
 
@@ -790,11 +793,13 @@ public:
 				} catch (...) {
 					if (correctResponseWriter.mayBePartial) // Can't be finished nor replaced by an error message
 						return {ServerReaction::DISCONNECT, 0};
-					constexpr std::string_view errorMessage =
-							"HTTP/1.1 500 Internal Server Error\r\n"
-							"Content-Length: 76\r\n\r\n"
-							"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
-					writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					if (!correctResponseWriter.finishedResponse) { // Otherwise, there is a response already
+						constexpr std::string_view errorMessage =
+								"HTTP/1.1 500 Internal Server Error\r\n"
+								"Content-Length: 76\r\n\r\n"
+								"<!doctype html><html lang=en><title>Error 500: Internal server error</title>";
+						writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
+					}
 				}
 				if (success) {
 					if (!correctResponseWriter.startedResponse) {
-- 
2.43.0


From 4e7eef28cc9ddc56ad5f6888f93679430d7fd40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:23 +0000
Subject: [PATCH 81/96] fix: CachingFileServer prefers generated files to those
 of the same name in the folder

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 8080b74..44f26e9 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -226,7 +226,7 @@ public:
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-			_cache.insert(std::make_pair(name, std::move(entry)));
+			_cache.insert_or_assign(name, std::move(entry));
 		});
 	}
 	void addGeneratedFile(std::string_view name, const std::string& contents) {
-- 
2.43.0


From e5c689cff2a78c48ccdb0db96059caa2d7f91201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:23 +0000
Subject: [PATCH 82/96] fix: CachingFileServer does not serve hidden files

---
 bomba_download_server.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 44f26e9..05e6719 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -165,7 +165,10 @@ class CachingFileServer : public FileServerBase {
 
 	void cacheFolder(const std::filesystem::path& path, std::string_view prefix) {
 		for (const auto& file : std::filesystem::directory_iterator(path)) {
-			std::string localPath = std::string(prefix) + '/' + file.path().filename().string();
+			std::string name = file.path().filename().string();
+			if (name.starts_with('.'))
+				continue; // Exclude hidden files
+			std::string localPath = std::string(prefix) + '/' + name;
 			if (file.is_directory()) {
 				cacheFolder(file.path(), localPath);
 			} else {
-- 
2.43.0


From 7a1bc5915ca5141de12373d88085c823ac331cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 83/96] fix: CachingFileServer does not serve files it could
 not read as if they were complete

---
 bomba_download_server.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 05e6719..30879fc 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -184,9 +184,13 @@ class CachingFileServer : public FileServerBase {
 		std::ifstream file(path, std::ios::binary);
 		file.unsetf(std::ios::skipws);
 		file.seekg(0, std::ios::end);
-		std::streampos fileSize = file.tellg();
+		std::streamoff fileSize = file.tellg();
 		file.seekg(0, std::ios::beg);
 		entry.contents.insert(entry.contents.begin(), std::istream_iterator<char>(file), std::istream_iterator<char>());
+		if (fileSize < 0 || std::ssize(entry.contents) < fileSize) { // Must not be sent as if it was complete
+			std::cout << "Can't read " << path << std::endl;
+			return;
+		}
 
 		_fileNames.emplace_back(localPath);
 		_cache.insert(std::make_pair(std::string_view(_fileNames.back()), std::move(entry)));
-- 
2.43.0


From 6f0334ee06870cd4ffadc1341e45ccfb21d1d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 84/96] fix: URL-encode the plus signs of numbers in forms

---
 bomba_http.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 4f08ee4..1343cf2 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -461,7 +461,11 @@ struct HtmlMessageEncoding {
 			writeValue(value);
 		}
 		void writeFloat(Flags, double value) final override {
-			writeValue(value);
+			constexpr int SIZE = 32;
+			std::array<char, SIZE> bytes = {};
+			auto written = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			// The exponent may contain a plus sign, which would be decoded as a space
+			mangleHttpResponse(std::string_view(bytes.data(), written.ptr - bytes.data()), _contents);
 		}
 		void writeString(Flags, std::string_view value) final override {
 			mangleHttpResponse(value, _contents);
-- 
2.43.0


From 3c402fa01920f7d2aee89d3ccfee8ef7e8b28037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 85/96] fix: read back the absent optional values of forms

---
 bomba_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1343cf2..1c08907 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -429,7 +429,9 @@ struct HtmlMessageEncoding {
 			_position = getEnd();
 		}
 
-		bool readOptional(Flags, Callback<> readValue) override {
+		bool readOptional(Flags flags, Callback<> readValue) override {
+			if ((flags & Flags::EMPTY_IS_NULL) && getEnd() == _position)
+				return false; // Written as an empty value
 			readValue(); // HTTP has no null, so if the value is present, it exists
 			return true;
 		}
-- 
2.43.0


From af5c5dd1872b06a46bdd776e960158d242e4eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 86/96] fix: do not leave out false arguments in the binary
 protocol

---
 bomba_binary_protocol.hpp | 4 ++++
 bomba_core.hpp            | 3 +++
 bomba_rpc_object.hpp      | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 223af21..07255b5 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -248,6 +248,10 @@ struct BinaryFormat {
 			if (present)
 				writeValue();
 		}
+
+		bool canOmitMembers(Flags flags) const final override {
+			return !(flags & SerialisationFlags::OBJECT_LAYOUT_KNOWN);
+		}
 	};
 };
 
diff --git a/bomba_core.hpp b/bomba_core.hpp
index fa3d8d8..0b035fc 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -220,6 +220,9 @@ struct IStructuredOutput {
 	// Should write an optional value, empty if it's absent and calling the callback to write the value if present
 	virtual void writeOptional(Flags flags, bool present, Callback<> writeValue) = 0;
 
+	// Returns whether members of objects can be left out, false if the format identifies them by their order
+	virtual bool canOmitMembers(Flags) const { return true; }
+
 	virtual ~IStructuredOutput() = default;
 
 	// Convenience classes and methods for using this interface in a less error prone way
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index cb16ebd..0fd536e 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -504,7 +504,8 @@ struct RpcLambdaInformationHolder {
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
-				if (first || !(flags & SerialisationFlags::OMIT_FALSE))
+				if (first || !(flags & SerialisationFlags::OMIT_FALSE)
+						|| !out.canOmitMembers(SerialisationFlags::Flags(flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN)))
 					write();
 			} else {
 				write();
-- 
2.43.0


From 00574bd38dae59959e662e222a0d2bda21244bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 87/96] fix: whitespace after the value of a HTTP header is not
 a part of it

---
 bomba_http.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1c08907..a0d2bf8 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -123,9 +123,9 @@ struct HttpParseState {
 			}
 
 			// Use the data
+			while (!attributeValue.empty() && (attributeValue.back() == ' ' || attributeValue.back() == '\t'))
+				attributeValue.remove_suffix(1);
 			if (attributeName == "content-length") {
-				while (!attributeValue.empty() && (attributeValue.back() == ' ' || attributeValue.back() == '\t'))
-					attributeValue.remove_suffix(1);
 				const char* valueEnd = attributeValue.data() + attributeValue.size();
 				auto [numberEnd, error] = std::from_chars(attributeValue.data(), valueEnd, bodySize);
 				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0) [[unlikely]] {
-- 
2.43.0


From ce5ac4c97041c3a3f4ed52552610ba5876d98355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 88/96] fix: refuse HTTP messages with several different sizes

---
 bomba_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index a0d2bf8..f808021 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -127,8 +127,10 @@ struct HttpParseState {
 				attributeValue.remove_suffix(1);
 			if (attributeName == "content-length") {
 				const char* valueEnd = attributeValue.data() + attributeValue.size();
+				int previousSize = bodySize;
 				auto [numberEnd, error] = std::from_chars(attributeValue.data(), valueEnd, bodySize);
-				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0) [[unlikely]] {
+				if (error != std::errc() || numberEnd != valueEnd || bodySize < 0
+						|| (previousSize != -1 && previousSize != bodySize)) [[unlikely]] {
 					return {ServerReaction::DISCONNECT, 0}; // Not a usable size
 				}
 			} else
-- 
2.43.0


From 856622aa2ff0f9213a3b77956040d44a00dd8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 89/96] fix: recognise Connection: close in any letter case

---
 bomba_http.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f808021..5567881 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -4,6 +4,7 @@
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "bomba_core.hpp"
 #endif
+#include <algorithm>
 #include <charconv>
 #include <exception>
 
@@ -683,7 +684,10 @@ public:
 				if (name == "content-type") {
 					contentType = location;
 				} else if (name == "connection") {
-					if (value == "close")
+					constexpr std::string_view close = "close";
+					if (std::equal(value.begin(), value.end(), close.begin(), close.end(), [] (char first, char second) {
+						return ((first >= 'A' && first <= 'Z') ? first + 'a' - 'A' : first) == second;
+					}))
 						ending = ServerReaction::DISCONNECT;
 				} // Ignore others
 			}
-- 
2.43.0


From 928f7b17071699a3477fca63ec953208a2a00453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 90/96] fix: do not serve HTTP requests with transfer codings
 without their bodies

---
 bomba_http.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 5567881..e500c4f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -654,6 +654,7 @@ public:
 			std::pair<int, int> path = {};
 			std::pair<int, int> contentType = {};
 			ServerReaction ending = ServerReaction::OK;
+			bool transferCoded = false;
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
@@ -689,6 +690,8 @@ public:
 						return ((first >= 'A' && first <= 'Z') ? first + 'a' - 'A' : first) == second;
 					}))
 						ending = ServerReaction::DISCONNECT;
+				} else if (name == "transfer-encoding") {
+					transferCoded = true; // The size is encoded in the body, which isn't implemented
 				} // Ignore others
 			}
 		};
@@ -713,6 +716,12 @@ public:
 				}
 			}
 
+			if (_state.transferCoded) [[unlikely]] { // It's not known where the next request begins
+				_state.requestType = ParseState::WEIRD_REQUEST;
+				_state.bodySize = 0;
+				_state.ending = ServerReaction::DISCONNECT;
+			}
+
 			if (_state.requestType == ParseState::POST_REQUEST) {
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
-- 
2.43.0


From a25fd295a15c8c0e69aa66e4505a117a9e59d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 91/96] fix: do not return HTTP responses with transfer codings
 without their bodies

---
 bomba_http.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e500c4f..3c3e66d 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -898,6 +898,8 @@ class HttpClient : public IRpcResponder {
 		auto [reaction, position] = state.parse(input);
 		if (reaction != ServerReaction::OK)
 			return {reaction, RequestToken{}, position};
+		if (state.transferCoded) [[unlikely]]
+			return {ServerReaction::DISCONNECT, RequestToken{}, 0}; // It's not known where the next response begins
 
 		int bodySize = std::max(0, state.bodySize); // If there is no size, there is no body
 		int64_t end = int64_t(state.parsePosition) + bodySize;
@@ -917,6 +919,7 @@ class HttpClient : public IRpcResponder {
 
 	struct ParseState : Detail::HttpParseState {
 		int resultCode = 0;
+		bool transferCoded = false;
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
@@ -928,7 +931,10 @@ class HttpClient : public IRpcResponder {
 			auto [end, error] = std::from_chars(firstLine.data() + separator1, firstLine.data() + firstLine.size(), resultCode);
 			return error == std::errc();
 		}
-		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
+		virtual void headerReader(std::string_view name, std::string_view, std::pair<int, int>) override {
+			if (name == "transfer-encoding")
+				transferCoded = true; // The size is encoded in the body, which isn't implemented
+		}
 	};
 
 public:
-- 
2.43.0


From dd0d0e75c462d9f814422984d2a5a442da249c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:27 +0000
Subject: [PATCH 92/96] fix: take the exponents of JSON numbers read as
 integers into account

---
 bomba_json.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 77bdf79..07ff8b8 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -148,17 +148,30 @@ struct BasicJson {
 		
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
+			int start = _position;
 			int64_t result = 0;
 			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
 			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
+			bool hasExponent = false;
 			char next = peekChar<false>();
 			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-' || next == '+') {
+				if (next == 'e' || next == 'E')
+					hasExponent = true;
 				_position++;
 				next = peekChar<false>();
 			}
+			if (hasExponent) {
+				constexpr double limit = 0x1p63;
+				double value = 0;
+				got = std::from_chars(_contents.data() + start, _contents.data() + _position, value);
+				if (got.ec != std::errc() || !(value >= -limit && value < limit)) [[unlikely]]
+					fail("JSON integer is out of range");
+				else
+					result = int64_t(value);
+			}
 			return result;
 		}
 		double readFloat(Flags flags) final override {
-- 
2.43.0


From bfa9b2c2b0614474ebcc30fb201ee4951a3c16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:27 +0000
Subject: [PATCH 93/96] fix: do not ignore what follows the digits of integers
 in forms

---
 bomba_http.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 3c3e66d..2ccfcbf 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -366,12 +366,21 @@ struct HtmlMessageEncoding {
 		}
 
 		int64_t readInt(Flags) final override {
-			int end = getEnd();
+			std::string_view demangled = demangleTillEnd();
+			const char* end = demangled.data() + demangled.size();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(_contents.data() + _position, _contents.data() + end, result);
-			_position = end;
-			if (got.ec != std::errc()) [[unlikely]]
+			std::from_chars_result got = std::from_chars(demangled.data(), end, result);
+			if (got.ec != std::errc()) [[unlikely]] {
 				fail("Expected integer");
+			} else if (got.ptr != end) { // A float sent instead of an integer
+				constexpr double limit = 0x1p63;
+				double value = 0;
+				got = std::from_chars(demangled.data(), end, value);
+				if (got.ec != std::errc() || got.ptr != end || !(value >= -limit && value < limit)) [[unlikely]]
+					fail("Expected integer");
+				else
+					result = int64_t(value);
+			}
 			return result;
 		}
 		double readFloat(Flags) final override {
-- 
2.43.0


From 7a93202c29cb1619a4974456fbdaf45834ac6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:27 +0000
Subject: [PATCH 94/96] fix: refuse numbers that do not fit into their
 variables

---
 bomba_core.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 0b035fc..2c6eb9a 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -926,7 +926,12 @@ struct TypedSerialiser<Integer> {
 	static void deserialiseMember(IStructuredInput& in, Integer& value, SerialisationFlags::Flags flags) {
 		if (!(flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE))
 			flags = decltype(flags)(flags | SerialisationFlags::typeToFlags(value));
-		value = in.readInt(flags);
+		int64_t read = in.readInt(flags);
+		value = Integer(read);
+		if (int64_t(value) != read) [[unlikely]] {
+			in.good = false;
+			parseError("Number is out of range");
+		}
 	}
 
 	static void describeType(IPropertyDescriptionFiller& filler)  {
-- 
2.43.0


From 0494517e4e42f8937c3319d8771f5a6a2a4a7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:28 +0000
Subject: [PATCH 95/96] fix: number only requests that are sent

---
 bomba_http.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 2ccfcbf..901eda0 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -951,7 +951,7 @@ public:
 
 	RequestToken post(std::string_view contentType,
 			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view resource = "/") {
-		_lastTokenWritten.id++;
+		RequestToken token = {_lastTokenWritten.id + 1};
 		ExpandingBufferType written;
 		constexpr char unsetSize[] = "0         ";
 		written += "POST ";
@@ -965,13 +965,14 @@ public:
 		written += contentType;
 		written += "\r\n\r\n";
 		int sizeBefore = written.size();
-		request(written, RequestToken{_lastTokenWritten});
+		request(written, token);
 		std::string_view reqView = written;
 		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
 				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
+		_lastTokenWritten = token; // Not earlier, writing the body may fail
 		_client.writeRequest(written);
-		return _lastTokenWritten;
+		return token;
 	}
 
 	RequestToken get(std::string_view resource = "/") {
-- 
2.43.0


From 15afaafae9af88ebefc420929f18173fa8769ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:02 +0000
Subject: [PATCH 96/96] fix: do not ignore what follows the digits of floats in
 forms

---
 bomba_http.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 901eda0..d2e1748 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -386,8 +386,9 @@ struct HtmlMessageEncoding {
 		double readFloat(Flags) final override {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
-			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			if (got.ec != std::errc()) [[unlikely]]
+			const char* end = demangled.data() + demangled.size();
+			std::from_chars_result got = std::from_chars(demangled.data(), end, result);
+			if (got.ec != std::errc() || got.ptr != end) [[unlikely]]
 				fail("Expected double");
 			return result;
 		}
-- 
2.43.0

