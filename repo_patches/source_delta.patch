From 1b7dd2766e5edc2cdd420989cc1c3a1fd3eff2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/20] fix: check the encodeIncr destination against the
 actual line size

The check ran before line_size was parsed, so short lines could overflow the supplied Buffer.
---
 src/yencode.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c971dbf..abcf79c 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -184,10 +184,6 @@ FUNC(EncodeIncr) {
 		if(node::Buffer::HasInstance(args[1])) {
 			// grab destination
 			allocResult = false;
-			// check that destination buffer has enough space
-			size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
-			if(node::Buffer::Length(args[1]) < dest_len)
-				RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 			result = (unsigned char*)node::Buffer::Data(args[1]);
 			argp++;
 		}
@@ -204,6 +200,9 @@ FUNC(EncodeIncr) {
 				if (col == line_size) col = 0; // allow this case
 			}
 		}
+		// check that destination buffer has enough space (only possible once the line size is known)
+		if(!allocResult && node::Buffer::Length(args[1]) < YENC_MAX_SIZE(arg_len, line_size))
+			RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	}
 	
 	Local<Object> ret = NEW_OBJECT;
-- 
2.43.0


From 678394b360a25891124bf432ffe2a5b4b48c32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 02/20] fix: decodeTo throws when the output Buffer is too
 small, as documented

---
 src/yencode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index abcf79c..1ba16b3 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -265,7 +265,7 @@ FUNC(DecodeTo) {
 	
 	// check that destination buffer has enough space
 	if(node::Buffer::Length(args[1]) < arg_len)
-		RETURN_VAL( Integer::New(ISOLATE 0) );
+		RETURN_ERROR("Destination buffer does not have enough space");
 	
 	bool isRaw = false;
 	if (args.Length() > 2)
-- 
2.43.0


From 6710b4016bccc91cf10eb2e56b15a75a2cdaa167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 03/20] fix: convert numeric arguments instead of assuming they
 are Integers

---
 src/yencode.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 1ba16b3..3f53a02 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -53,7 +53,12 @@ static inline size_t YENC_MAX_SIZE(size_t len, size_t line_size) {
 # if NODE_VERSION_AT_LEAST(8, 0, 0)
 #  define NEW_STRING(s) String::NewFromOneByte(isolate, (const uint8_t*)(s), NewStringType::kNormal).ToLocalChecked()
 #  define RETURN_ERROR(e) { isolate->ThrowException(Exception::Error(String::NewFromOneByte(isolate, (const uint8_t*)(e), NewStringType::kNormal).ToLocalChecked())); return; }
-#  define ARG_TO_INT(a) (a).As<Integer>()->Value()
+// numbers (and other primitives) only: converting an object could run arbitrary Javascript
+static inline int64_t arg_to_int(Isolate* isolate, const Local<Value>& arg) {
+	if(arg->IsObject()) return 0;
+	return arg->IntegerValue(isolate->GetCurrentContext()).FromMaybe(0);
+}
+#  define ARG_TO_INT(a) arg_to_int(isolate, a)
 #  define ARG_TO_BOOL(a) (a).As<Boolean>()->Value()
 # else
 #  define NEW_STRING(s) String::NewFromUtf8(isolate, s)
-- 
2.43.0


From 3d2249c4ca2fc9c42fe812487e2f4e5d409f02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 04/20] fix: do not truncate line_size/column_offset to a
 different value

---
 src/yencode.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 3f53a02..4a72e72 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -105,6 +105,11 @@ static inline int64_t arg_to_int(Isolate* isolate, const Local<Value>& arg) {
 # define SET_OBJ(obj, key, val) (obj)->Set(NEW_STRING(key), val)
 #endif
 
+static inline int clamp_to_int(int64_t n) {
+	if(n > 0x7fffffff) return 0x7fffffff;
+	if(n < -0x7fffffff) return -0x7fffffff;
+	return (int)n;
+}
 
 // encode(str, line_size, col)
 FUNC(Encode) {
@@ -119,12 +124,12 @@ FUNC(Encode) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 2) {
-		line_size = (int)ARG_TO_INT(args[1]);
+		line_size = clamp_to_int(ARG_TO_INT(args[1]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 3) {
-			col = (int)ARG_TO_INT(args[2]);
+			col = clamp_to_int(ARG_TO_INT(args[2]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -153,12 +158,12 @@ FUNC(EncodeTo) {
 	
 	int line_size = 128, col = 0;
 	if (args.Length() >= 3) {
-		line_size = (int)ARG_TO_INT(args[2]);
+		line_size = clamp_to_int(ARG_TO_INT(args[2]));
 		if (line_size == 0) line_size = 128; // allow this case
 		if (line_size < 0)
 			RETURN_ERROR("Line size must be at least 1 byte");
 		if (args.Length() >= 4) {
-			col = (int)ARG_TO_INT(args[3]);
+			col = clamp_to_int(ARG_TO_INT(args[3]));
 			if (col > line_size || col < 0)
 				RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 			if (col == line_size) col = 0; // allow this case
@@ -193,13 +198,13 @@ FUNC(EncodeIncr) {
 			argp++;
 		}
 		if (args.Length() > argp) {
-			line_size = (int)ARG_TO_INT(args[argp]);
+			line_size = clamp_to_int(ARG_TO_INT(args[argp]));
 			if (line_size == 0) line_size = 128; // allow this case
 			if (line_size < 0)
 				RETURN_ERROR("Line size must be at least 1 byte");
 			argp++;
 			if (args.Length() > argp) {
-				col = (int)ARG_TO_INT(args[argp]);
+				col = clamp_to_int(ARG_TO_INT(args[argp]));
 				if (col > line_size || col < 0)
 					RETURN_ERROR("Column offset cannot exceed the line size and cannot be negative");
 				if (col == line_size) col = 0; // allow this case
-- 
2.43.0


From 041053ada727054c1c0bd2d1146c1ebe53032fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 05/20] fix: crc32_zeroes/crc32_shift handle lengths beyond 31
 bits

---
 src/yencode.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 4a72e72..c272fdd 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -409,9 +409,9 @@ FUNC(CRC32Zeroes) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int len = ARG_TO_INT(args[0]);
+	int64_t len = ARG_TO_INT(args[0]);
 	if(len < 0)
-		crc1 = crc32_unzero(crc1, -len);
+		crc1 = crc32_unzero(crc1, 0 - (uint64_t)len);
 	else
 		crc1 = crc32_zeros(crc1, len);
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
@@ -445,9 +445,9 @@ FUNC(CRC32Shift) {
 			RETURN_ERROR("Second argument must be a 4 byte buffer");
 		crc1 = read_crc32(args[1]);
 	}
-	int n = ARG_TO_INT(args[0]);
+	int64_t n = ARG_TO_INT(args[0]);
 	if(n < 0)
-		crc1 = crc32_shift(crc1, ~crc32_powmod(-n));
+		crc1 = crc32_shift(crc1, ~crc32_powmod(0 - (uint64_t)n));
 	else
 		crc1 = crc32_shift(crc1, crc32_powmod(n));
 	RETURN_VAL(pack_crc32(ISOLATE crc1));
-- 
2.43.0


From 5b353528a610116ec0695563c3eb7798e742fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 06/20] fix: report byte counts of 2GB and above correctly

---
 src/yencode.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index c272fdd..7bf724a 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -105,6 +105,9 @@ static inline int64_t arg_to_int(Isolate* isolate, const Local<Value>& arg) {
 # define SET_OBJ(obj, key, val) (obj)->Set(NEW_STRING(key), val)
 #endif
 
+// Integer only holds 32 bits, which isn't enough for all Buffer lengths
+#define NEW_COUNT(n) Number::New(ISOLATE (double)(n))
+
 static inline int clamp_to_int(int64_t n) {
 	if(n > 0x7fffffff) return 0x7fffffff;
 	if(n < -0x7fffffff) return -0x7fffffff;
@@ -176,7 +179,7 @@ FUNC(EncodeTo) {
 		RETURN_ERROR("Destination buffer does not have enough space (use `maxSize` to compute required space)");
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, true);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( NEW_COUNT(len) );
 }
 
 FUNC(EncodeIncr) {
@@ -232,7 +235,7 @@ FUNC(EncodeIncr) {
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "written", NEW_COUNT(len));
 	if(allocResult) {
 		result = (unsigned char*)realloc(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
@@ -282,7 +285,7 @@ FUNC(DecodeTo) {
 		isRaw = ARG_TO_BOOL(args[2]);
 	
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), (unsigned char*)node::Buffer::Data(args[1]), arg_len, NULL);
-	RETURN_VAL( Integer::New(ISOLATE len) );
+	RETURN_VAL( NEW_COUNT(len) );
 }
 
 
@@ -329,8 +332,8 @@ FUNC(DecodeIncr) {
 #endif
 	
 	Local<Object> ret = NEW_OBJECT;
-	SET_OBJ(ret, "read", Integer::New(ISOLATE sp - src));
-	SET_OBJ(ret, "written", Integer::New(ISOLATE len));
+	SET_OBJ(ret, "read", NEW_COUNT(sp - src));
+	SET_OBJ(ret, "written", NEW_COUNT(len));
 	if(allocResult) {
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
-- 
2.43.0


From 0e6535c54b43da3d8796408b324304b65b0bf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 07/20] fix: handle failed allocations

---
 src/yencode.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/yencode.cc b/src/yencode.cc
index 7bf724a..f888538 100644
--- a/src/yencode.cc
+++ b/src/yencode.cc
@@ -22,6 +22,11 @@ static void free_buffer(char* data, void* _size) {
 	free(data);
 }
 
+static unsigned char* shrink_buffer(unsigned char* data, size_t size) {
+	unsigned char* ret = (unsigned char*)realloc(data, size ? size : 1);
+	return ret ? ret : data; // if it couldn't be shrunk, the original is still valid
+}
+
 // TODO: encode should return col num for incremental processing
 //       line limit + return input consumed
 //       async processing?
@@ -143,8 +148,9 @@ FUNC(Encode) {
 	size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 	
 	unsigned char *result = (unsigned char*) malloc(dest_len);
+	if (!result) RETURN_ERROR("Out of memory");
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, true);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -231,13 +237,14 @@ FUNC(EncodeIncr) {
 		// allocate enough memory to handle worst case requirements
 		size_t dest_len = YENC_MAX_SIZE(arg_len, line_size);
 		result = (unsigned char*) malloc(dest_len);
+		if (!result) RETURN_ERROR("Out of memory");
 	}
 	
 	size_t len = encode(line_size, &col, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, false);
 	
 	SET_OBJ(ret, "written", NEW_COUNT(len));
 	if(allocResult) {
-		result = (unsigned char*)realloc(result, len);
+		result = shrink_buffer(result, len);
 		SET_OBJ(ret, "output", NEW_BUFFER((char*)result, len, free_buffer, (void*)len));
 		MARK_EXT_MEM(len);
 	}
@@ -260,8 +267,9 @@ FUNC(Decode) {
 		isRaw = ARG_TO_BOOL(args[1]);
 	
 	unsigned char *result = (unsigned char*) malloc(arg_len);
+	if (!result) RETURN_ERROR("Out of memory");
 	size_t len = decode(isRaw, (const unsigned char*)node::Buffer::Data(args[0]), result, arg_len, NULL);
-	result = (unsigned char*)realloc(result, len);
+	result = shrink_buffer(result, len);
 	MARK_EXT_MEM(len);
 	RETURN_VAL( NEW_BUFFER((char*)result, len, free_buffer, (void*)len) );
 }
@@ -321,11 +329,14 @@ FUNC(DecodeIncr) {
 	sp = (const unsigned char*)newSrc;
 #endif
 	
-	if(allocResult) result = (unsigned char*) malloc(arg_len);
+	if(allocResult) {
+		result = (unsigned char*) malloc(arg_len);
+		if (!result) RETURN_ERROR("Out of memory");
+	}
 	unsigned char* dp = result;
 	YencDecoderEnd ended = RapidYenc::decode_end((const void**)&sp, (void**)&dp, arg_len, &state);
 	size_t len = dp - result;
-	if(allocResult) result = (unsigned char*)realloc(result, len);
+	if(allocResult) result = shrink_buffer(result, len);
 	
 #ifdef DBG_ALIGN_SOURCE
 	free(newSrc);
-- 
2.43.0


From 4ce4dc308ac77c11fd192f8cb84d470497e16917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 08/20] fix: raw decode dropped an escaped character before a
 line end

Whether the byte got lost depended on the alignment and length of the input ("=\r\n" at its end,
with the SIMD part ending at the '=').
---
 src/decoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 6dda4ef..2b0cbe7 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -29,7 +29,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				i++;
 				if(c == '\r') {
 					*state = YDEC_STATE_CR;
-					if(i >= 0) return 0;
+					if(i >= 0) return p - dest;
 				} else {
 					*state = YDEC_STATE_NONE;
 					break;
@@ -39,7 +39,7 @@ static size_t do_decode_noend_scalar(const unsigned char* src, unsigned char* de
 				if(es[i] != '\n') break;
 				i++;
 				*state = YDEC_STATE_CRLF;
-				if(i >= 0) return 0;
+				if(i >= 0) return p - dest;
 				// Else fall-thru
 			case YDEC_STATE_CRLF:
 				// skip past first dot
-- 
2.43.0


From c7b42edb1449aa9d7fca04159b88cbfa892533fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 09/20] fix: decodeChunk accepts states that are not in its
 table

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 9be2d49..d697186 100644
--- a/index.js
+++ b/index.js
@@ -151,7 +151,7 @@ module.exports = {
 		};
 		var state = decodePrev.indexOf(prev);
 		if(state < 0) {
-			for(var l=-3; l<0; i++) {
+			for(var l=-3; l<0; l++) {
 				state = decodePrev.indexOf(prev.slice(l));
 				if(state >= 0) break;
 			}
-- 
2.43.0


From 97358f951df53fa90331502c3a842a960ae80b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 10/20] fix: decodeChunk(data, state, output) writes to the
 supplied output

---
 index.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index.js b/index.js
index d697186..4c51494 100644
--- a/index.js
+++ b/index.js
@@ -131,7 +131,12 @@ module.exports = {
 	decodeTo: y.decodeTo,
 	
 	decodeChunk: function(data, output, prev) {
-		// both output and prev are optional
+		// both output and prev are optional, and may be given in either order
+		if(Buffer.isBuffer(prev) && !Buffer.isBuffer(output)) {
+			var swap = output;
+			output = prev;
+			prev = swap;
+		}
 		if(typeof output !== 'undefined' && !Buffer.isBuffer(output)) {
 			prev = output;
 			output = null;
-- 
2.43.0


From 129d84fe96f752aa43e73dcb42ebe4212f9cffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 11/20] fix: decodeChunk with no data returns the supplied
 output and a boolean

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 4c51494..850673e 100644
--- a/index.js
+++ b/index.js
@@ -150,8 +150,8 @@ module.exports = {
 		if(data.length == 0) return {
 			read: 0,
 			written: 0,
-			output: toBuffer([]),
-			ended: 0,
+			output: output || toBuffer([]),
+			ended: false,
 			state: prev
 		};
 		var state = decodePrev.indexOf(prev);
-- 
2.43.0


From bcc86e127b16ad2cb2bc005d3be978ab7a737400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 12/20] fix: post() called a function which does not exist

---
 index.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/index.js b/index.js
index 850673e..3144321 100644
--- a/index.js
+++ b/index.js
@@ -204,12 +204,11 @@ module.exports = {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
 		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
-		var e = encodeCrc(data, line_size);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
-			e.output,
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + e.crc32.toString('hex'))
+			y.encode(data, line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + y.crc32(data).toString('hex'))
 		]);
 	},
 	multi_post: function(filename, size, parts, line_size) {
-- 
2.43.0


From 263dd25d61d3402547e7daa86b074afdcbc3ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 13/20] fix: the encoding setting applies to filenames being
 encoded

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 3144321..02f1744 100644
--- a/index.js
+++ b/index.js
@@ -203,7 +203,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -368,7 +368,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), exports.encoding);
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 54ef33b93660532af748a010bcad91e8d70c0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 14/20] fix: strip line breaks and nulls from filenames

---
 index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 02f1744..489b901 100644
--- a/index.js
+++ b/index.js
@@ -6,7 +6,7 @@ var toBuffer = Buffer.alloc ? Buffer.from : Buffer;
 var bufferSlice = Buffer.prototype.readBigInt64BE ? Buffer.prototype.subarray : Buffer.prototype.slice;
 
 var nl = toBuffer([13, 10]);
-var RE_BADCHAR = /\r\n\0/g;
+var RE_BADCHAR = /[\r\n\0]/g;
 var RE_YPROP = /([a-z_][a-z_0-9]*)=/;
 var RE_NUMBER = /^\d+$/;
 var decodePrev = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
-- 
2.43.0


From 58c175b8c8ad7c324dab3f9c6c32e9f4fe6b84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 15/20] fix: from_post works when called detached from the
 module

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 489b901..3f94d76 100644
--- a/index.js
+++ b/index.js
@@ -239,7 +239,7 @@ module.exports = {
 		var sp = yencStart;
 		var p = bufferFind(data, '\r\n', yencStart+8);
 		while(p > 0) {
-			var line = bufferSlice.call(data, sp, p).toString(this.encoding).trim();
+			var line = bufferSlice.call(data, sp, p).toString(module.exports.encoding).trim();
 			lines.push(line);
 			sp = p+2;
 			if(line.substring(0, 6) == '=yend ') { // no data in post
@@ -273,7 +273,7 @@ module.exports = {
 				ret.yencEnd = p;
 			} else
 				ret.yencEnd = p+2;
-			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(this.encoding).trim();
+			var endLine = bufferSlice.call(data, yencEnd+2, p).toString(module.exports.encoding).trim();
 			
 			warnings = warnings.concat(decoderParseLines([endLine], ydata));
 		}
-- 
2.43.0


From 3cbe03ab5192e955864e013f35685872397cb262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 16/20] fix: from_post does not confuse names in a post with
 Object.prototype

---
 index.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 3f94d76..3d4576e 100644
--- a/index.js
+++ b/index.js
@@ -75,7 +75,7 @@ else
 var decoderParseLines = function(lines, ydata) {
 	var warnings = [];
 	for(var i=0; i<lines.length; i++) {
-		var yprops = {};
+		var yprops = Object.create(null);
 		
 		var line = lines[i].substring(2); // cut off '=y'
 		// parse tag
@@ -256,7 +256,7 @@ module.exports = {
 		if(!ret.dataStart && !ret.yencEnd) // reached end of data but '=yend' not found
 			return DecoderError('no_end_found', 'yEnd end marker not found');
 		
-		var ydata = {};
+		var ydata = Object.create(null);
 		var warnings = decoderParseLines(lines, ydata);
 		
 		if(!ret.yencEnd) {
-- 
2.43.0


From 8c147dad59aaa742537cd871d905248f357c6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 17/20] fix: a rejected YEncoder.encode call leaves the encoder
 unchanged

---
 index.js | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/index.js b/index.js
index 3d4576e..863cc2a 100644
--- a/index.js
+++ b/index.js
@@ -389,33 +389,35 @@ YEncoder.prototype = {
 	encode: function(data) {
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		this.part++;
-		if(this.part > this.parts)
+		var part = this.part + 1;
+		if(part > this.parts)
 			throw new Error('Exceeded number of specified yEnc parts');
 		var end = this.pos + data.length;
 		if(end > this.size)
 			throw new Error('Exceeded total file size');
 		
-		var yInfo = this.yInfo;
 		var crc = y.crc32(data), fullCrc = '';
-		this.crc = y.crc32_combine(this.crc, crc, data.length);
-		if(this.part == this.parts) {
+		var totalCrc = y.crc32_combine(this.crc, crc, data.length);
+		if(part == this.parts) {
 			// final part treated slightly differently
 			if(end != this.size)
 				throw new Error('File size doesn\'t match total data length');
-			fullCrc = ' crc32='+this.crc.toString('hex');
-			this.yInfo = null;
+			fullCrc = ' crc32='+totalCrc.toString('hex');
 		}
 		
 		var ret = Buffer.concat([
-			toBuffer('=ybegin part='+this.part),
-			yInfo,
+			toBuffer('=ybegin part='+part),
+			this.yInfo,
 			toBuffer('=ypart begin='+( this.pos+1 )+' end='+end+'\r\n'),
 			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' part='+this.part+' pcrc32='+crc.toString('hex')+fullCrc)
+			toBuffer('\r\n=yend size='+data.length+' part='+part+' pcrc32='+crc.toString('hex')+fullCrc)
 		]);
 		
+		// only update state once nothing can fail
+		this.part = part;
 		this.pos = end;
+		this.crc = totalCrc;
+		if(part == this.parts) this.yInfo = null;
 		return ret;
 	},
 	
@@ -424,18 +426,20 @@ YEncoder.prototype = {
 		
 		if(this.size != data.length)
 			throw new Error('File size doesn\'t match total data length');
-		this.encode = singleEncodeError;
 		
+		var crc = y.crc32(data);
+		var ret = Buffer.concat([
+			this.yInfo,
+			y.encode(data, this.line_size),
+			toBuffer('\r\n=yend size='+data.length+' crc32=' + crc.toString('hex'))
+		]);
+		
+		// only update state once nothing can fail
+		this.encode = singleEncodeError;
 		this.part = 1;
 		this.pos = data.length;
-		this.crc = y.crc32(data);
-		
-		var yInfo = this.yInfo;
+		this.crc = crc;
 		this.yInfo = null;
-		return Buffer.concat([
-			yInfo,
-			y.encode(data, this.line_size),
-			toBuffer('\r\n=yend size='+data.length+' crc32=' + this.crc.toString('hex'))
-		]);
+		return ret;
 	}
 };
-- 
2.43.0


From 48778956743cabd1d354093182e878eb0eca2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 18/20] fix: keep line breaks and nulls out of filenames in
 every encoding

---
 index.js | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/index.js b/index.js
index 863cc2a..4c961da 100644
--- a/index.js
+++ b/index.js
@@ -118,6 +118,14 @@ var decoderParseLines = function(lines, ydata) {
 	return warnings;
 };
 
+var filenameToBuffer = function(filename) {
+	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	// encodings other than UTF-8 can map further characters to line breaks and nulls
+	return toBuffer(Array.prototype.filter.call(filename, function(c) {
+		return c != 10 && c != 13 && c != 0;
+	}));
+};
+
 var propIsNotValidNumber = function(prop) {
 	return prop && !RE_NUMBER.test(prop);
 };
@@ -203,7 +211,7 @@ module.exports = {
 		
 		if(!Buffer.isBuffer(data)) data = toBuffer(data);
 		
-		filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+		filename = filenameToBuffer(filename);
 		return Buffer.concat([
 			toBuffer('=ybegin line='+line_size+' size='+data.length+' name='),
 			filename, nl,
@@ -368,7 +376,7 @@ function YEncoder(filename, size, parts, line_size) {
 	this.pos = 0;
 	this.crc = toBuffer([0,0,0,0]);
 	
-	filename = toBuffer(filename.replace(RE_BADCHAR, '').substring(0, 256), module.exports.encoding);
+	filename = filenameToBuffer(filename);
 	if(parts > 1) {
 		this.yInfo = Buffer.concat([
 			toBuffer(' total='+parts+' line='+line_size+' size='+size+' name='),
-- 
2.43.0


From 88da9b3cfbb6b1ad34d0ee9667849ad9aeedd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 19/20] fix: maxSize was too small for fractional and huge line
 sizes, which encode truncates and caps

---
 index.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 4c961da..43312d4 100644
--- a/index.js
+++ b/index.js
@@ -194,8 +194,10 @@ module.exports = {
 			esc_ratio++;
 		if(esc_ratio < 1 || esc_ratio > 2)
 			throw new Error('yEnc escape ratio must be between 0 and 1');
+		// same conversion as done by encode: fractions are dropped, large sizes are capped
+		line_size = Math.min((line_size - line_size%1) || 128, 0x7fffffff);
 		return Math.ceil(length*esc_ratio) // all characters escaped
-			+ 2 * Math.floor((length*esc_ratio) / (line_size||128)) // newlines, considering the possibility of all chars escaped
+			+ 2 * Math.floor((length*esc_ratio) / line_size) // newlines, considering the possibility of all chars escaped
 			+ 2 // allocation for offset and that a newline may occur early
 			+ 64 // extra space just in case things go awry... just kidding, it's just extra padding to make SIMD logic easier
 		;
-- 
2.43.0


From 19d93fa39bf35b4a83e30c182c480faa2e835b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 20/20] fix: minSize counted a line break after the last full
 line, which encode does not write

---
 index.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/index.js b/index.js
index 43312d4..0e05879 100644
--- a/index.js
+++ b/index.js
@@ -183,8 +183,9 @@ module.exports = {
 	
 	minSize: function(length, line_size) {
 		if(!length) return 0;
+		line_size = Math.min((line_size - line_size%1) || 128, 0x7fffffff); // as done by encode
 		return length // no characters escaped
-			+ 2 * Math.floor(length / (line_size||128)); // newlines
+			+ 2 * Math.floor((length-1) / line_size); // newlines (there's none after the last line)
 	},
 	maxSize: function(length, line_size, esc_ratio) {
 		if(!length) return 0;
-- 
2.43.0

