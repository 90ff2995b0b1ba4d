From 5ffd4da5e73adb233f27c4f972bf1909133086b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 01/55] fix: do not take bytes above 0x7f received from the
 peer for the end of the stream

---
 src/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..60ac369 100644
--- a/src/message.c
+++ b/src/message.c
@@ -295,7 +295,8 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    // Every byte value is data, negative values are reserved for the end of the stream
+    return (unsigned char) chr;
 
 }
 
-- 
2.43.0


From 66ef956efb21a5cc1dccc1b178a558dbffe9d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 02/55] fix: report only messages received by this call and
 drop all contents of malformed ones

---
 src/message.c | 61 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/message.c b/src/message.c
index 60ac369..fbffb3a 100644
--- a/src/message.c
+++ b/src/message.c
@@ -300,12 +300,26 @@ static __INLINE int read_character(message_stream* stream) {
 
 }
 
+// Forget a malformed message together with the arguments and properties that were already extracted from it
+static void discard_message(message_stream* stream, string_list* arguments, trax_properties* properties) {
+
+    stream->input.message_type = -1;
+    buffer_reset(stream->input.key_buffer);
+    buffer_reset(stream->input.value_buffer);
+    list_reset(arguments);
+    trax_properties_clear(properties);
+
+}
+
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties) {
 	
 	VALIDATE_MESSAGE_STREAM(stream);
 
     list_reset(arguments);
 
+    // A message that was received by an earlier call must not be reported again
+    stream->input.message_type = -1;
+
     while (!stream->input.complete) {
 
     	char chr; 
@@ -313,11 +327,18 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     	if (val < 0) {
     		if (stream->input.message_type == -1) break;
+    		if (stream->input.state == PARSE_STATE_QUOTED_KEY || stream->input.state == PARSE_STATE_QUOTED_VALUE ||
+    		        stream->input.state == PARSE_STATE_QUOTED_ESCAPE_KEY || stream->input.state == PARSE_STATE_QUOTED_ESCAPE_VALUE) {
+    			// The stream ended within an argument, the message is not complete
+    			discard_message(stream, arguments, properties);
+    			break;
+    		}
     		chr = '\n';
     		stream->input.complete = TRUE;
-    	} else chr = (char) val;
-
-        LOG_CHAR(log, chr);
+    	} else {
+    		chr = (char) val;
+    		LOG_CHAR(log, chr);
+    	}
 
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
@@ -349,8 +370,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                		stream->input.state = -prefix_length;
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -372,11 +392,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr == '\n') {
                 	stream->input.complete = TRUE;
                 } else {
-                	stream->input.message_type = -1;
+                    discard_message(stream, arguments, properties);
                 	stream->input.state = PARSE_STATE_PASS;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
                 }
 
                 break;
@@ -476,11 +493,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    discard_message(stream, arguments, properties);
+                    stream->input.state = -prefix_length;
                 }
                 
                 break;
@@ -495,10 +509,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties);
+                    stream->input.state = -prefix_length;
                 }
                 
                 break;
@@ -559,11 +571,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    discard_message(stream, arguments, properties);
+                    stream->input.state = -prefix_length;
                 }
                 
                 break;
@@ -578,10 +587,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    discard_message(stream, arguments, properties);
+                    stream->input.state = -prefix_length;
                 }
                 
                 break;
-- 
2.43.0


From 5f73ce54db46d9c184cc524cd2ac2cb0befb3fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 03/55] fix: close and refuse sockets that could not be set up

---
 src/message.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message.c b/src/message.c
index fbffb3a..f8158b9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -148,6 +148,7 @@ message_stream* create_message_stream_socket_connect(int port) {
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
         closesocket(sid);
+        return NULL;
     }
 
 	while (1) {
@@ -219,9 +220,15 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
         return NULL;
     }
 
+	if (asock == -1) {
+		perror("accept");
+		return NULL;
+	}
+
 	if (setsockopt(asock, IPPROTO_TCP , TCP_NODELAY,
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
+        closesocket(asock);
         return NULL;
     }
 
-- 
2.43.0


From aabdb49faf12b6aaf5ec642c79b4fbc768736364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 04/55] fix: format error messages with the values they were
 given

---
 src/trax.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..9e8fe6c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -537,23 +537,25 @@ void clear_error(trax_handle* handle) {
 }
 
 void set_error(trax_handle* handle, const char *format, ...) {
-	va_list args;
+    va_list args;
+    int length;
+    char* error;
 
-    string_buffer* buffer = buffer_create(100);
+    va_start(args, format);
+    length = vsnprintf(NULL, 0, format, args);
+    va_end(args);
 
-	va_start(args, format);
-	
-    buffer_append(buffer, format, args);
+    error = (char*) malloc(sizeof(char) * (length + 1));
 
-	va_end(args);
+    va_start(args, format);
+    vsnprintf(error, length + 1, format, args);
+    va_end(args);
 
     if (handle->error) {
         free(handle->error);
     }
 
-    handle->error = buffer_extract(buffer);
-
-    buffer_destroy(&buffer);
+    handle->error = error;
 
 }
 
-- 
2.43.0


From 5790c1f3485c519f6c57309310be169cb0d80b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 05/55] fix: appending properties without overwrite keeps
 existing keys

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8fe6c..beb41d6 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -520,8 +520,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From b3ad19bd11764c20cbca20432a500f94f1a67af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 06/55] fix: server setup uses defined metadata flags and
 checks the stream

---
 src/trax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index beb41d6..fc41d7b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -649,7 +649,7 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     trax_properties* properties;
     trax_handle* server = (trax_handle*) malloc(sizeof(trax_handle));
     string_list* arguments;
-    int flags;
+    int flags = 0;
     char tmp[BUFFER_LENGTH];
 
     server->flags = (TRAX_FLAG_SERVER) | TRAX_FLAG_VALID;
@@ -689,7 +689,6 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
@@ -1041,6 +1040,8 @@ trax_handle* trax_server_setup_v(trax_metadata *metadata, const trax_logging log
 
         stream = create_message_stream_socket_connect(atoi(env_socket));
 
+        if (!stream) return NULL;
+
     } else {
 
         int fin = fileno(stdin);
-- 
2.43.0


From b1d57952eb1bdef7c3c2ca5b7c3da2431425e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 07/55] fix: parse format lists without the state shared by
 strtok

---
 src/trax.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index fc41d7b..2c7b995 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -54,6 +54,9 @@
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
 #include <io.h>
+#ifndef strtok_r
+#define strtok_r strtok_s
+#endif
 int get_shared_fd(int h, int read) {
     return _open_osfhandle((intptr_t)h, read ? _O_RDONLY : 0);
 }
@@ -375,8 +378,8 @@ int image_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position = NULL;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
         if (strcmp(pch, "path") == 0)
             formats |= TRAX_IMAGE_PATH;
@@ -390,7 +393,7 @@ int image_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return formats;
@@ -421,8 +424,8 @@ int region_formats_decode(char *str) {
 
     int formats = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position = NULL;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
 
         if (strcmp(pch, "rectangle") == 0)
@@ -435,7 +438,7 @@ int region_formats_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return formats;
@@ -478,8 +481,8 @@ int channels_decode(char *str) {
 
     int channels = 0;
 
-    char *pch;
-    pch = strtok (str, " ;");
+    char *pch, *position = NULL;
+    pch = strtok_r (str, " ;", &position);
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -493,7 +496,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok_r (NULL, ";", &position);
     }
 
     return channels;
-- 
2.43.0


From f1e798a7fecca735736fecdaa5aa8a1bd516b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 08/55] fix: client setup handles missing and unknown formats
 and releases the stream on failure

---
 src/trax.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 2c7b995..b85000c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -595,11 +595,11 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = (tmp) ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = (tmp) ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
     free(tmp);
 
     // Multiple channels are only supported in TraX protocol version 2
@@ -607,12 +607,17 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = (tmp) ? channels_decode(tmp) : TRAX_CHANNEL_COLOR;
         free(tmp);
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
     }
 
+    if (region_formats < 0 || image_formats < 0 || channels < 0) {
+        DEBUGMSG("Unknown region format, image format or channel.");
+        goto failure;
+    }
+
     tracker_name = trax_properties_get(tmp_properties, "trax.name");
     tracker_description = trax_properties_get(tmp_properties, "trax.description");
     tracker_family = trax_properties_get(tmp_properties, "trax.family");
@@ -642,6 +647,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream(&stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From 6312d347f86fa461132adbf42c0ad40fa0b41001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 09/55] fix: decode images with the exact size and refuse
 illegal headers

---
 src/base64.c | 12 +++++-------
 src/trax.c   | 23 +++++++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..c6539f7 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,13 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    size_t len = 0;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    // Only count the characters that are going to be decoded
+    while (pr2six[(unsigned char) bufcoded[len]] <= 63)
+        len++;
 
-    return ((len*3)/4 - padding) + 1;
+    return (len * 3) / 4 + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
diff --git a/src/trax.c b/src/trax.c
index b85000c..38e0924 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -315,7 +315,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, width, height, depth, format, channels;
+        long long row;
         char* token;
 
         width = strtol(resource, &resource, 10);
@@ -334,19 +335,20 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (width < 1 || height < 1 || depth < 1) return result;
+
+        row = (long long) width * depth * channels;
+
+        if (outlen / row != height || outlen % row != 0) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
         result->width = width;
         result->height = height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
-        verify = base64decode((unsigned char*)result->data, resource);
-
-        assert(verify == allocated);
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoding also writes a stop char
+        base64decode((unsigned char*)result->data, resource);
 
     } else if (strcmp(buffer, "data") == 0) {
         int format, outlen;
@@ -356,7 +358,8 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+        outlen = base64decodelen(resource) - 1;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
@@ -364,10 +367,10 @@ trax_image* image_decode(char* buffer) {
         result->height = 1;
         result->format = format;
 
-        result->data = (char*) malloc(sizeof(char) * (outlen));
+        result->data = (char*) malloc(sizeof(char) * (outlen + 1)); // Decoding also writes a stop char
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(resource - 1) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From c6d81e44d02dcf6c6d5f8e5a1e1c1ab7fc07ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 10/55] fix: image rows are addressed by their full width

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 38e0924..79e3acb 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1678,7 +1678,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1691,7 +1691,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From df4d84f3641625e72c8570a70a343650f8b2aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 11/55] fix: refuse channel and point indices out of range

---
 src/trax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 79e3acb..b610f6e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1843,7 +1843,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1853,7 +1853,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
@@ -2185,14 +2185,14 @@ void trax_image_list_release(trax_image_list** list) {
 
 trax_image* trax_image_list_get(const trax_image_list* list, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return NULL;
+    if (i < 0 || i >= TRAX_CHANNELS) return NULL;
 
     return list->images[i];
 }
 
 void trax_image_list_set(trax_image_list* list, trax_image* image, int channel) {
     int i = TRAX_CHANNEL_INDEX(channel);
-    if (i < 0 || i > TRAX_CHANNELS) return;
+    if (i < 0 || i >= TRAX_CHANNELS) return;
 
     list->images[i] = image;
 }
-- 
2.43.0


From 820625555e44e3f89603f572c6b487bc9f59fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 12/55] fix: numeric properties with an empty value yield the
 default

---
 src/trax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index b610f6e..e4adb2a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2018,6 +2018,8 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 
     if (value == NULL) return def;
 
+    ret = def;
+
     if (value[0] != '\0') {
         ret = (int) strtod(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
@@ -2037,6 +2039,8 @@ float trax_properties_get_float(const trax_properties* properties, const char* k
 
     if (value == NULL) return def;
 
+    ret = def;
+
     if (value[0] != '\0') {
         ret = (float) strtod(value, &end);
         ret = (*end == '\0' && end != value) ? ret : def;
-- 
2.43.0


From 63e6874084c7a44e4ec85b65df15d6188bd96034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 13/55] fix: setting an object to its own region does not use
 freed memory

---
 src/trax.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index e4adb2a..c9a76c3 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2105,9 +2105,12 @@ void trax_object_list_set(trax_object_list* list, int index, trax_region* region
 
     if (index < 0 || index >= list->size) return;
 
+    // Clone first, the region may be the one that is already in the list
+    trax_region* clone = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = clone;
 
 }
 
@@ -2140,7 +2143,7 @@ int trax_object_list_append(trax_object_list* list, const trax_object_list* src)
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From 7a7949a2b39d769445956e2f30d364e98e7709cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 14/55] fix: an object list can be appended to itself

---
 src/trax.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index c9a76c3..f661539 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2133,12 +2133,13 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
     o = list->size;
-    list->size += src->size;
+    n = src->size;
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
-- 
2.43.0


From 9fa15e72ed75442c1682592eace046d0856a2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 15/55] fix: reserve space for every element of a region
 sequence

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index cae061b..7e2ec4c 100644
--- a/src/region.c
+++ b/src/region.c
@@ -289,7 +289,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
-- 
2.43.0


From 2332c72ec4ab7c11b702c29b86999c7848b063ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 16/55] fix: region prefixes are compared completely

---
 src/region.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 7e2ec4c..e1c62c7 100644
--- a/src/region.c
+++ b/src/region.c
@@ -246,13 +246,13 @@ const char* __parse_uri_prefix(const char* buffer, region_type* type) {
 		if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
 		if (buffer[i] == ':') {
-			if (strncmp(buffer, "rect", i - 1) == 0)
+			if (i == 4 && strncmp(buffer, "rect", i) == 0)
 				*type = RECTANGLE;
-			else if (strncmp(buffer, "poly", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "poly", i) == 0)
 				*type = POLYGON;
-			else if (strncmp(buffer, "mask", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "mask", i) == 0)
 				*type = MASK;
-			else if (strncmp(buffer, "special", i - 1) == 0)
+			else if (i == 7 && strncmp(buffer, "special", i) == 0)
 				*type = SPECIAL;
 			return &(buffer[i + 1]);
 		}
-- 
2.43.0


From 9aa3e4fa9677123720ee3a9f99aa0a13f2c8cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 17/55] fix: bounding rectangle of polygons with negative
 coordinates

---
 src/region.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index e1c62c7..4a67bc4 100644
--- a/src/region.c
+++ b/src/region.c
@@ -552,9 +552,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
-- 
2.43.0


From d8e41643dae11972a173d20c1dce224146d2315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 18/55] fix: polygons keep their position and extent when
 converted to masks

---
 src/region.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/region.c b/src/region.c
index 4a67bc4..2402e37 100644
--- a/src/region.c
+++ b/src/region.c
@@ -670,14 +670,11 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			reg = region_create_mask(b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
-
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
 			break;
 		}
-- 
2.43.0


From 7dfdc76f4fac024f991f70dcd4039fcd6c0cdb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 19/55] fix: rectangles smaller than a pixel have no mask

---
 src/region.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/region.c b/src/region.c
index 2402e37..c66212e 100644
--- a/src/region.c
+++ b/src/region.c
@@ -663,6 +663,10 @@ region_container* region_convert(const region_container* region, region_type typ
 		switch (region->type) {
 		case RECTANGLE: {
 
+			// A rectangle that does not cover a pixel has no mask
+			if ((int)region->data.rectangle.width < 1 || (int)region->data.rectangle.height < 1)
+				break;
+
 			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
 			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
 
-- 
2.43.0


From 17375a73719404a40d3f45b33b0f03ee231919da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 20/55] fix: refuse malformed region text instead of aborting
 or writing out of bounds

---
 src/region.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/region.c b/src/region.c
index c66212e..c65b39a 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -336,7 +337,7 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
@@ -368,7 +369,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +378,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +394,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -413,21 +414,30 @@ int region_parse(const char* buffer, region_container** region) {
 	case MASK: {
 
 		int i;
-		int position, length;
+		int position, length, width, height;
 		char value;
+		char* mask;
+
+		if (num <= 4) break;
+
+		width = (int) data[2];
+		height = (int) data[3];
 
-		assert(num > 4);
+		if (width < 1 || height < 1 || width > INT_MAX / height) break;
+
+		length = width * height;
+		mask = (char*) malloc(sizeof(char) * length);
+
+		if (!mask) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
 
 		(*region)->data.mask.x = (int) data[0];
 		(*region)->data.mask.y = (int) data[1];
-		(*region)->data.mask.width = (int) data[2];
-		(*region)->data.mask.height = (int) data[3];
-
-		length = (*region)->data.mask.width * (*region)->data.mask.height;
-		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
+		(*region)->data.mask.width = width;
+		(*region)->data.mask.height = height;
+		(*region)->data.mask.data = mask;
 
 		value = 0;
 		position = 0;
-- 
2.43.0


From 2ebe9d6c42d37357c7532184adb4f1c6176fd30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 21/55] fix: a mask without foreground can be decoded

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index c65b39a..42d79fa 100644
--- a/src/region.c
+++ b/src/region.c
@@ -418,7 +418,7 @@ int region_parse(const char* buffer, region_container** region) {
 		char value;
 		char* mask;
 
-		if (num <= 4) break;
+		if (num < 4) break;
 
 		width = (int) data[2];
 		height = (int) data[3];
-- 
2.43.0


From 92ca59a9e422c41f8f147e46051b479f7d9511f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 22/55] fix: a client wait fails cleanly on unexpected messages
 and without objects

---
 src/trax.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index f661539..5506009 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -790,11 +790,18 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
     VALIDATE_CLIENT_HANDLE(client);
 
+    clear_error(client);
+
     if (!HANDLE_ALIVE(client)) {
         set_error(client, "Tracker not alive");
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No object is being tracked");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -808,6 +815,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             region_container *_region = NULL;
 
             if (list_size(arguments) != 1) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 1);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -816,6 +824,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             }
             
             if (!region_parse(arguments->buffer[0], &_region)) {
+                set_error(client, "Protocol error, illegal region");
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -830,6 +839,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         } else if (result == TRAX_QUIT) {
 
             if (list_size(arguments) != 0) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -846,10 +856,13 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            if (result != TRAX_ERROR)
+                set_error(client, "Protocol error, unexpected message");
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From ad7f7d4ef3d4201d5a6c5d1b39d8e7de0e7637bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 23/55] fix: a failed server wait does not read output
 variables it did not set

---
 src/trax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trax.c b/src/trax.c
index 5506009..232fb9b 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1107,6 +1107,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     VALIDATE_SERVER_HANDLE(server);
 
+    *images = NULL;
+    *region = NULL;
+
     clear_error(server);
 
     if (!HANDLE_ALIVE(server)) {
@@ -1237,6 +1240,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     clear_error(server);
 
+    *images = NULL;
     *objects = NULL;
 
     if (!HANDLE_ALIVE(server)) {
-- 
2.43.0


From 1fff310f3a36f2b68a0d5b991af9ffa8f5a650d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 24/55] fix: a multi-object server wait releases everything it
 allocated

---
 src/trax.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 232fb9b..ac0aff7 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1233,8 +1233,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
     trax_properties* tmp_properties;
     int object_capacity = 1;
     int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_region** object_regions;
+    trax_properties** object_properties;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1250,6 +1250,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     int argument_count = trax_image_list_count(server->metadata->channels);
 
+    object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
+    object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+
     while (1) {
         tmp_properties = trax_properties_create();
         arguments = list_create(8);
@@ -1314,6 +1317,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From 4a22b1324cba93033cc7e5572675a37266ee6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 25/55] fix: objects that were never started are discarded when
 the session is quit

---
 src/trax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index ac0aff7..dbfe87a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1275,7 +1275,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-            goto end;
+            goto discard;
         }
 
         if (code == TRAX_FRAME) {
@@ -1362,6 +1362,8 @@ failure:
         trax_image_list_release(images);
     }
 
+discard:
+
     for (i = 0; i < object_count; i++) {
         trax_region_release(&(object_regions[i]));
         trax_properties_release(&(object_properties[i]));
-- 
2.43.0


From 078b3eac775648d81114105b7603325dd0b68cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 26/55] fix: a refused client request sends nothing to the
 server

---
 src/trax.c | 128 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 85 insertions(+), 43 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index dbfe87a..dcb9c6e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -875,6 +875,30 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+static int client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties, int reset);
+
+static string_list* client_images(trax_handle* client, trax_image_list* images) {
+
+        int i;
+        string_list* arguments;
+        arguments = list_create(1);
+
+        for (i = 0; i < TRAX_CHANNELS; i++) {
+            if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
+                if (!images->images[i]) {
+                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+                    list_destroy(&arguments);
+                    return NULL;
+                }
+                char* buffer = image_encode(images->images[i]);
+                list_append_direct(arguments, buffer);
+            } 
+        }
+
+        return arguments;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -906,20 +930,14 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     }
 
     if (IS_VERSION_4(client)) {
-        if (client->objects > 0) {
-            // Reset object count with an empty initialize message
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
-            client->objects = 0;
-        }
-        return trax_client_frame(client, images, objects, properties);
+        // Active objects are reset together with the initialization of the new ones
+        return client_frame(client, images, objects, properties, client->objects > 0);
     }
 
     // Legacy single target mode from now on.
 
     region = trax_object_list_get(objects, 0);
 
-    assert(REGION_TYPE(region) != SPECIAL);
-
     // TODO: verify server version?
 
     arguments = list_create(1);
@@ -941,19 +959,24 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
 
         trax_region* converted = region_autoconvert(region, client->metadata->format_region);
 
-        assert(converted);
+        if (converted) {
 
-        data = region_string((region_container *)converted);
+            data = region_string((region_container *)converted);
 
-        trax_region_release(&converted);
+            trax_region_release(&converted);
+
+        }
 
     } else data = region_string((region_container *)region);
 
-    if (data) {
-        list_append(arguments, data);
-        free(data);
+    if (!data) {
+        set_error(client, "Unable to encode region");
+        goto failure;
     }
 
+    list_append(arguments, data);
+    free(data);
+
     write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
 
     list_destroy(&arguments);
@@ -972,7 +995,14 @@ failure:
 
 int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
+    return client_frame(client, images, objects, properties, 0);
+
+}
+
+static int client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties, int reset) {
+
     int i;
+    string_list* frame;
     VALIDATE_CLIENT_HANDLE(client);
 
     clear_error(client);
@@ -985,39 +1015,64 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
     if (IS_VERSION_4(client)) {
 
         int n = (objects) ? trax_object_list_count(objects) : 0;
+        string_list* regions;
 
-        if (client->objects + n > 1 && !IS_MULTI_OBJECT(client)) {
+        if ((reset ? 0 : client->objects) + n > 1 && !IS_MULTI_OBJECT(client)) {
             set_error(client, "Invalid mode");
             return TRAX_ERROR;
         }
 
+        // Everything is encoded before the first message is sent so that a refused request sends nothing
+        frame = client_images(client, images);
+
+        if (!frame) return TRAX_ERROR;
+
+        regions = list_create(1);
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
-            string_list* arguments;
             trax_region* region = trax_object_list_get(objects, i);
 
-            arguments = list_create(1);
-
             if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
 
                     trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-                    assert(converted);
-                    data = region_string((region_container *)converted);
-                    trax_region_release(&converted);
+                    if (converted) {
+                        data = region_string((region_container *)converted);
+                        trax_region_release(&converted);
+                    }
 
             } else data = region_string((region_container *)region);
 
-            if (data) {
-                list_append(arguments, data);
-                free(data);
+            if (!data) {
+                set_error(client, "Unable to encode region");
+                list_destroy(&regions);
+                list_destroy(&frame);
+                return TRAX_ERROR;
             }
 
+            list_append_direct(regions, data);
+
+        }
+
+        if (reset) {
+            // Reset object count with an empty initialize message
+            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
+            client->objects = 0;
+        }
+
+        for (i = 0; i < n; i++) {
+            string_list* arguments = list_create(1);
+
+            list_append(arguments, regions->buffer[i]);
+
             write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
 
             list_destroy(&arguments);
 
         }
         
+        list_destroy(&regions);
+
         client->objects += n;
         
     } else {
@@ -1029,29 +1084,16 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
-    }
+        frame = client_images(client, images);
 
-    {
-        string_list* arguments;
-        arguments = list_create(1);
+        if (!frame) return TRAX_ERROR;
 
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-                if (!images->images[i]) {
-                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                    list_destroy(&arguments);
-                    return TRAX_ERROR;
-                }
-                char* buffer = image_encode(images->images[i]);
-                list_append_direct(arguments, buffer);
-            } 
-        }
+    }
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
-        list_destroy(&arguments);
+    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, frame, properties);
+    list_destroy(&frame);
 
-        return TRAX_OK;
-    }
+    return TRAX_OK;
 
 }
 
-- 
2.43.0


From d52e58cb206371521705c043925a34f3e6052f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 27/55] fix: a refused reply sends nothing and sets the error

---
 src/trax.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index dcb9c6e..a008c6a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1455,7 +1455,10 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     data = region_string(REGION(region));
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "Unable to encode region");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
@@ -1474,6 +1477,7 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
     int n, i;
     char* data;
     string_list* arguments;
+    string_list* regions;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1498,15 +1502,28 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    // Everything is encoded before the first message is sent so that a refused reply sends nothing
+    regions = list_create(1);
+
     for (i = 0; i < n; i++) {
         data = region_string(REGION(trax_object_list_get(objects, i)));
-        if (!data) return TRAX_ERROR;
+        if (!data) {
+            set_error(server, "Unable to encode region");
+            list_destroy(&regions);
+            return TRAX_ERROR;
+        }
+        list_append_direct(regions, data);
+    }
+
+    for (i = 0; i < n; i++) {
         arguments = list_create(1);
-        list_append_direct(arguments, data);
+        list_append(arguments, regions->buffer[i]);
         write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
         list_destroy(&arguments);
     }
 
+    list_destroy(&regions);
+
     return TRAX_OK;
 }
 
-- 
2.43.0


From 97bec60b13e6ff90c74fbf71f0cf2a371ae2d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 28/55] fix: assigning a C++ object to itself keeps its value
 and copies of empty objects are empty

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..e8ab23e 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,7 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	if (pn) acquire();
 }
 
 
@@ -72,9 +72,10 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	if (pn == lhs.pn) return; // Already sharing the same object
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
-- 
2.43.0


From 3288f17c7f0a42572a070019bbe79840b06b712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 29/55] fix: C++ lists own the native list they create and
 forget the elements of the previous one

---
 src/traxpp.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index e8ab23e..55ef437 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -611,9 +611,7 @@ ObjectList::ObjectList() {
 }
 
 ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -687,6 +685,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 	list = obj;
 	if (list) acquire();
 
+	_regions.clear();
+	_properties.clear();
 	_regions.resize(trax_object_list_count(obj));
 	_properties.resize(trax_object_list_count(obj));
 
@@ -698,8 +698,7 @@ void ObjectList::wrap(trax_object_list* obj) {
 
 
 ImageList::ImageList()  {
-	list = trax_image_list_create();
-	images.resize(TRAX_CHANNELS);
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -776,6 +775,9 @@ void ImageList::wrap(trax_image_list* obj) {
 	list = obj;
 	if (list) acquire();
 
+	images.clear();
+	images.resize(TRAX_CHANNELS);
+
 	for (int i = 0; i < TRAX_CHANNELS; i++)
 		images[i].wrap(obj->images[i]);
 
-- 
2.43.0


From f902fe6c5a564c9d6b2312aa643b219d7bb9dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 30/55] fix: C++ objects that were moved from are empty

---
 src/traxpp.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 55ef437..eeea848 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -113,8 +113,8 @@ Metadata::Metadata() {
     wrap(trax_metadata_create(0, 0, TRAX_CHANNEL_COLOR, NULL, NULL, NULL, 0));
 }
 
-Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
-	metadata = original.metadata;
+Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)), metadata(NULL) {
+	std::swap(metadata, original.metadata);
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -518,8 +518,8 @@ Image::Image(const Image& original) : Wrapper(original) {
 	image = original.image;
 }
 
-Image::Image(Image&& original) : Wrapper(std::move(original)) {
-	image = original.image;
+Image::Image(Image&& original) : Wrapper(std::move(original)), image(NULL) {
+	std::swap(image, original.image);
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -620,7 +620,7 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -706,7 +706,7 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -792,7 +792,7 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Wrapper(std::move(original)), region(NULL) {
 	std::swap(region, original.region);
 }
 
@@ -1038,7 +1038,7 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Wrapper(std::move(original)), properties(NULL) {
 	std::swap(properties, original.properties);
 }
 
@@ -1048,6 +1048,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
-- 
2.43.0


From ace66a2b1b39ed587b9c5b3478909762202dfd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 31/55] fix: changing a shared C++ mask or clearing shared
 properties leaves the copies alone

---
 src/traxpp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index eeea848..ed313d4 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -900,6 +900,10 @@ void Region::get_mask_header(int* x, int* y, int* width, int* height) const {
 
 char* Region::write_mask_row(int row) {
 
+	if (claims() > 1) {
+		wrap(trax_region_clone(region));
+	}
+
 	return trax_region_write_mask_row(region, row);
 
 }
@@ -1065,9 +1069,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 9aa429167f509a8287b5b62cf10bdc91d400e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 32/55] fix: changing a shared C++ list does not leave foreign
 elements in its copies

---
 src/traxpp.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index ed313d4..6125522 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -652,6 +652,14 @@ Region ObjectList::get(int index) const {
 }
 
 void ObjectList::set(int index, Region region) {
+	if (claims() > 1) {
+		ObjectList copy(size());
+		for (int i = 0; i < size(); i++) {
+			copy.set(i, _regions[i]);
+			trax_properties_append(list->properties[i], copy.list->properties[i], 1);
+		}
+		*this = std::move(copy);
+	}
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -743,6 +751,13 @@ bool ImageList::has(int channel) const {
 
 void ImageList::set(Image image, int channel) {
 
+	if (claims() > 1) {
+		ImageList copy;
+		for (int i = 0; i < TRAX_CHANNELS; i++)
+			copy.set(images[i], TRAX_CHANNEL_ID(i));
+		*this = std::move(copy);
+	}
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
-- 
2.43.0


From cb835677bbcf3c7433db03842a3ee5352cabd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 33/55] fix: C++ server releases its object list and empty C++
 handles do not reach the library

---
 src/traxpp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 6125522..1192954 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -243,10 +243,12 @@ void Handle::cleanup() {
 }
 
 int Handle::set_parameter(int id, int value) {
+	if (!claims()) return 0;
 	return trax_set_parameter(handle, id, value);
 }
 
 int Handle::get_parameter(int id, int* value) {
+	if (!claims()) return 0;
 	return trax_get_parameter(handle, id, value);
 }
 
@@ -266,7 +268,7 @@ const Metadata Handle::metadata() {
 }
 
 bool Handle::terminate(const std::string reason) {
-	if (!claims()) return -1;
+	if (!claims()) return false;
 	return trax_terminate(handle, reason.c_str()) == TRAX_OK;
 }
 
@@ -458,6 +460,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
@@ -482,6 +485,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From 6722578f683be51a3cd81454a5597ea0f7a38128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 34/55] fix: initializing with an empty region or replying with
 an empty list is refused

---
 src/trax.c     | 4 ++--
 src/traxpp.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index a008c6a..1c6ae0f 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -955,7 +955,7 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         }
     }
 
-    if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+    if (region && !TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
 
         trax_region* converted = region_autoconvert(region, client->metadata->format_region);
 
@@ -1033,7 +1033,7 @@ static int client_frame(trax_handle* client, trax_image_list* images, trax_objec
             char* data = NULL;
             trax_region* region = trax_object_list_get(objects, i);
 
-            if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+            if (region && !TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
 
                     trax_region* converted = region_autoconvert(region, client->metadata->format_region);
                     if (converted) {
diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 1192954..71f5b01 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -362,7 +362,7 @@ int Client::initialize(const ImageList& image, const Region& region, const Prope
 }
 
 int Client::initialize(const ImageList& image, const ObjectList& objects, const Properties& properties) {
-	if (!claims()) return -1;
+	if (!claims() || !objects.list) return -1;
 
 	return trax_client_initialize(handle, image.list, objects.list, properties.properties);
 
@@ -509,7 +509,7 @@ int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& propertie
 
 int ServerMOT::reply(const ObjectList& objects) {
 
-	if (!claims()) return -1;
+	if (!claims() || !objects.list) return -1;
 
 	return trax_server_reply_mot(handle, objects.list);
 
-- 
2.43.0


From 04c83227eb8c4a2ca50fdb67127ac12c97d13fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 35/55] fix: failed exchanges with the tracker throw the error
 they build

---
 support/client/client.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..72cf88b 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -765,8 +765,9 @@ bool TrackerProcess::initialize(const ImageList& image, const Region& region, co
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to initialize tracker: " + state->client->get_error());
+		throw std::runtime_error("Unable to initialize tracker: " + message);
 	}
 
 	return result == TRAX_OK;
@@ -789,8 +790,9 @@ bool TrackerProcess::wait(Region& region, Properties& properties) {
 	state->tracking = result == TRAX_STATE;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to retrieve response: " + state->client->get_error());
+		throw std::runtime_error("Unable to retrieve response: " + message);
 	}
 
 	return result == TRAX_STATE;
@@ -812,8 +814,9 @@ bool TrackerProcess::frame(const ImageList& image, const Properties& properties)
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to send new frame: " + state->client->get_error());
+		throw std::runtime_error("Unable to send new frame: " + message);
 	}
 
 	return result == TRAX_OK;
@@ -838,8 +841,9 @@ bool TrackerProcess::initialize(const ImageList& image, const ObjectList& object
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to initialize tracker: " + state->client->get_error());
+		throw std::runtime_error("Unable to initialize tracker: " + message);
 	}
 
 	return result == TRAX_OK;
@@ -861,8 +865,9 @@ bool TrackerProcess::wait(ObjectList& objects, Properties& properties) {
 	state->tracking = result == TRAX_STATE;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to retrieve response: " + state->client->get_error());
+		throw std::runtime_error("Unable to retrieve response: " + message);
 	}
 
 	return result == TRAX_STATE;
@@ -884,8 +889,9 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 	state->tracking = result == TRAX_OK;
 
 	if (result == TRAX_ERROR) {
+		const string message = state->client->get_error(); // Forgotten once the tracker is stopped
 		state->stop_process();
-		std::runtime_error("Unable to send new frame: " + state->client->get_error());
+		throw std::runtime_error("Unable to send new frame: " + message);
 	}
 
 	return result == TRAX_OK;
-- 
2.43.0


From ed0cb6c25a47fd7600fe1e6df91d01fa22b0d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 36/55] fix: starting the tracker does not race with the
 watchdog and leaves it disarmed when it fails

---
 support/client/client.cpp | 105 ++++++++++++++++++++++++++------------
 1 file changed, 71 insertions(+), 34 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 72cf88b..8cd6ccd 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -298,40 +298,53 @@ public:
 
 		if (process_running()) return false;
 
-		if (client) {
-			delete client;
-			client = NULL;
-			print_debug("Deleted stale client");
-		}
+		bool started = false;
+		int process_id = 0;
+		int process_output = -1;
+		int process_input = -1;
 
-		print_debug("Creating process %s", command.c_str());
+		reset_logger();
 
-		process_state_mutex.acquire();
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
-		if (!directory.empty()) {
-			print_debug("Working directory is %s", directory.c_str());
-			process->set_directory(directory);
-		}
-		process_state_mutex.release();
+		// The watchdog must not see a process that is not started yet
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
 
-		process->copy_environment();
+			if (client) {
+				delete client;
+				client = NULL;
+				print_debug("Deleted stale client");
+			}
 
-		std::map<std::string, std::string>::const_iterator iter;
-		for (iter = environment.begin(); iter != environment.end(); ++iter) {
-			process->set_environment(iter->first, iter->second);
-		}
+			if (process) {
+				delete process;
+				process = NULL;
+				print_debug("Deleted stale process");
+			}
 
-		if (connection == CONNECTION_SOCKETS) {
-			char port_buffer[24];
-			sprintf(port_buffer, "%d", socket_port);
-			process->set_environment("TRAX_SOCKET", port_buffer);
-		}
+			print_debug("Creating process %s", command.c_str());
 
-		reset_logger();
+			process = new Process(command, connection == CONNECTION_EXPLICIT);
+			if (!directory.empty()) {
+				print_debug("Working directory is %s", directory.c_str());
+				process->set_directory(directory);
+			}
 
-		bool started = false;
-		print_debug("Starting process");
-		started = process->start();
+			process->copy_environment();
+
+			std::map<std::string, std::string>::const_iterator iter;
+			for (iter = environment.begin(); iter != environment.end(); ++iter) {
+				process->set_environment(iter->first, iter->second);
+			}
+
+			if (connection == CONNECTION_SOCKETS) {
+				char port_buffer[24];
+				sprintf(port_buffer, "%d", socket_port);
+				process->set_environment("TRAX_SOCKET", port_buffer);
+			}
+
+			print_debug("Starting process");
+			started = process->start();
+
+		}
 
 		if (!started) {
 			print_debug("Unable to start process");
@@ -339,7 +352,20 @@ public:
 		} else {
 
 			sleepf(0.1);
-			if (!process->is_alive()) {
+
+			MUTEX_SYNCHRONIZE(process_state_mutex) {
+
+				started = process && process->is_alive();
+
+				if (started) {
+					process_id = process->get_handle();
+					process_output = process->get_output();
+					process_input = process->get_input();
+				}
+
+			}
+
+			if (!started) {
 				print_debug("Unable to start process");
 				throw std::runtime_error("Unable to start the tracker process");
 			}
@@ -351,27 +377,38 @@ public:
 			if (verbosity != VERBOSITY_SILENT)
 				logger = Logging(client_logger, this, 0);
 
+			Client* established = NULL;
+
 			if (connection == CONNECTION_SOCKETS) {
 				print_debug("Setting up TraX with TCP socket connection");
-				client = new Client(socket_id, logger, timeout);
+				established = new Client(socket_id, logger, timeout);
 			} else {
 				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-				client = new Client(process->get_output(), process->get_input(), logger);
+				established = new Client(process_output, process_input, logger);
 			}
+
+			MUTEX_SYNCHRONIZE(process_state_mutex) {
+				client = established;
+			}
+
 			// TODO: check tracker exit state
-			if (!(*client)) {
+			if (!(*established)) {
 				print_debug("Unable to establish connection.");
+				stop_process();
 				throw std::runtime_error("Unable to establish connection.");
 			}
 
 			stop_watchdog();
 
-			print_debug("Tracker process ID: %d", process->get_handle());
+			print_debug("Tracker process ID: %d", process_id);
 			int server_version = 0;
 
-			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
+			established->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
+			if (server_version > TRAX_VERSION) {
+				stop_process();
+				throw std::runtime_error("Unsupported protocol version");
+			}
 
 			print_debug("Connection with tracker established.");
 
-- 
2.43.0


From e53d1f60ed99190cee7a79619b174b9505f6b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 37/55] fix: the logger touches the tracker process and its
 line buffers only under their locks

---
 support/client/client.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 8cd6ccd..53c5420 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -294,6 +294,11 @@ public:
 		return process && process->is_alive();
 	}
 
+	int process_error() {
+		Lock lock(process_state_mutex);
+		return (process && process->is_alive()) ? process->get_error() : -1;
+	}
+
 	bool start_process() {
 
 		if (process_running()) return false;
@@ -634,11 +639,9 @@ flush_condition.wait(1000);
 
 			if (err == -1) {
 
-				if (state->process_running()) {
-
-					err = state->process->get_error();
+				err = state->process_error();
 
-				} else {
+				if (err == -1) {
 
 					state->flush_condition.notify();
 
@@ -661,7 +664,11 @@ flush_condition.wait(1000);
 
 			} else {
 
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+				MUTEX_SYNCHRONIZE(state->logger_mutex) {
+
+					flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+
+				}
 
 			}
 
@@ -699,16 +706,13 @@ flush_condition.wait(1000);
 
 		} else {
 
-			for (int i = 0; i < length; i++) {
-
-				if (line_buffer_push(state->stdout_buffer, string[i], state->line_truncate)) {
+			MUTEX_SYNCHRONIZE(state->logger_mutex) {
 
-					MUTEX_SYNCHRONIZE(state->logger_mutex) {
+				for (int i = 0; i < length; i++) {
 
+					if (line_buffer_push(state->stdout_buffer, string[i], state->line_truncate))
 						line_buffer_flush(state->stdout_buffer, state->logger_stream);
 
-					}
-
 				}
 
 			}
-- 
2.43.0


From 91e6133866182dfd36e294cc77a43fa4d9904b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 38/55] fix: the watchdog timer is changed under the watchdog
 lock and the tracking state is initialised

---
 support/client/client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 53c5420..b613b07 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -226,7 +226,7 @@ class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
 		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
-		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
+		tracking(false), connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
 
 		timer_init();
 
@@ -489,6 +489,8 @@ public:
 
 	void reset_watchdog(int timeout) {
 
+		Lock lock(watchdog_mutex);
+
 		watchdog_timeout = timeout * 10;
 
 	}
@@ -755,7 +757,7 @@ flush_condition.wait(1000);
 	ostream* logger_stream;
 
 	Mutex logger_mutex;
-	Mutex watchdog_mutex;
+	RecursiveMutex watchdog_mutex; // The watchdog stops the process (and itself) while holding it
 
 	Mutex process_state_mutex;
 
-- 
2.43.0


From 5a091c03e94d3ce9c6374acb47899c563ce4838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 39/55] fix: a server socket that cannot be configured is
 closed

---
 support/client/client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index b613b07..d2ebe1c 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -98,6 +98,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
@@ -107,6 +108,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_NOSIGPIPE, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
-- 
2.43.0


From 17e5113008dfbf03519bb79df1c951f33c898e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 40/55] fix: a process that was not started closes nothing, a
 command that cannot be parsed is refused

---
 support/client/process.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..151e1ce 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -110,7 +110,7 @@ char** parse_command(const char* command) {
         position = __next_token(command, position, buffer, 1024);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -148,11 +148,20 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+    out[0] = out[1] = -1;
+    in[0] = in[1] = -1;
+    err[0] = err[1] = -1;
+    action_initialized = false;
 #endif
 
+    exit_status = -1;
+    p_stdin = -1;
+    p_stdout = -1;
+    p_stderr = -1;
+
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
@@ -316,12 +325,11 @@ bool Process::start() {
 
 #else
 
-        action_initialized = false;
-
         if (pid) return false;
 
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
-- 
2.43.0


From d0079fb86a249e5895b4acd73544f8097526d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 41/55] fix: a timed wait never uses an invalid time

---
 support/client/threads.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/support/client/threads.cpp b/support/client/threads.cpp
index 24e3298..501bfec 100644
--- a/support/client/threads.cpp
+++ b/support/client/threads.cpp
@@ -60,10 +60,8 @@ int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milise
 	gettimeofday(&curtime, NULL);
 	curtime.tv_usec += milisec * 1000;
 
-	if (curtime.tv_usec > 1000000) {
-		curtime.tv_usec -= 1000000;
-		curtime.tv_sec++;
-	}
+	curtime.tv_sec += curtime.tv_usec / 1000000;
+	curtime.tv_usec %= 1000000;
 
 	waittime.tv_sec = curtime.tv_sec;
 	waittime.tv_nsec = 1000L * curtime.tv_usec;
-- 
2.43.0


From 25ea2c67fca26a01f7f28fb60d5df91f1c57225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 42/55] fix: Python names compressed image formats like the C
 interface

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From 8a7ad12c49cdbe32ced2da5cc97014ca479e0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 43/55] fix: Python properties can be read by index

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..a7040c2 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -423,7 +423,7 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        return self.get(key)
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From 5927e2783eb74e6b4f4679957db00e277ef24b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 44/55] fix: a Python client can send a frame without new
 objects

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..b67d9e7 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -233,7 +233,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From 0b5829f6ad33a6c19f01a815800f0b0ca12418ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 45/55] fix: Python calls native functions with the parameters
 they have

---
 support/python/trax/client.py | 2 +-
 support/python/trax/server.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index b67d9e7..73ab494 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -75,7 +75,7 @@ class Client(object):
             raise TraxException("Unable to connect to tracker")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..7937bbc 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -79,7 +79,7 @@ class Server(object):
             raise TraxException("Exception when setting up.")
 
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
@@ -134,9 +134,8 @@ class Server(object):
         from . import TraxException, TraxStatus, Properties, wrap_objects
 
         assert(isinstance(objects, list))
-        tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
-        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
+        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference))
 
         if status == TraxStatus.ERROR:
             message = trax_get_error(self._handle.reference)
-- 
2.43.0


From 1ec8278deb8080cd9d8cbbfd4cc0d18ada497a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 46/55] fix: Python masks can be created from arrays that are
 not contiguous

---
 support/python/trax/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..ae77783 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -344,6 +344,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
-- 
2.43.0


From cc7d39ab347c6d184316ecb9f49f127013c12576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 47/55] fix: MATLAB reports the address of URL images

---
 support/matlab/helpers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..3724f5c 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -253,6 +253,8 @@ Region array_to_region(const mxArray* input) {
 
     MEX_ERROR("Illegal region format.");
 
+    return p;
+
 }
 
 mxArray* region_to_array(const Region& region) {
@@ -323,7 +325,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From 725dc14681cc78912a543039c4fe6c833936f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 48/55] fix: MATLAB server can quit without a reason

---
 support/matlab/traxserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..e8c1220 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -197,10 +197,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if (nrhs > 2)
             MEX_ERROR("Only one optional string argument allowed.");
-        else
+        else if (nrhs == 2)
             reason = get_string(prhs[1]);
 
-        if (handle->terminate(reason) == TRAX_ERROR) {
+        if (!handle->terminate(reason)) {
             std::string tmp("Unable to terminate protocol: " + handle->get_error());
             MEX_ERROR(tmp.c_str());
         }
-- 
2.43.0


From 546bb5e518d7f78e67c508865fd1a465298d8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 49/55] fix: a single object reply of a C++ multi object server
 carries its properties

The list was appended to the caller's properties instead of the other way around.
---
 src/traxpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 71f5b01..1f82444 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -473,7 +473,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	if (properties.properties)
+		trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 0);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From de77010a455d9c1d68b6f18024d56b1e84667acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 50/55] fix: initializing a C++ client with an empty image list
 reports an error

---
 src/traxpp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 1f82444..0a564e0 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -348,7 +348,7 @@ int Client::wait(ObjectList& objects, Properties& properties) {
 }
 
 int Client::initialize(const ImageList& image, const Region& region, const Properties& properties) {
-	if (!claims()) return -1;
+	if (!claims() || !image.list) return -1;
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
@@ -362,7 +362,7 @@ int Client::initialize(const ImageList& image, const Region& region, const Prope
 }
 
 int Client::initialize(const ImageList& image, const ObjectList& objects, const Properties& properties) {
-	if (!claims() || !objects.list) return -1;
+	if (!claims() || !image.list || !objects.list) return -1;
 
 	return trax_client_initialize(handle, image.list, objects.list, properties.properties);
 
-- 
2.43.0


From 866151d2fda9e75781821abb3ab39a32d5fb1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 51/55] fix: Python TRAX_CHANNEL_INDEX returned -1 for the
 color channel

---
 support/python/trax/_ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..3b4bb9a 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -1446,7 +1446,7 @@ except:
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 95
 def TRAX_CHANNEL_INDEX(I):
-    return (I == TRAX_CHANNEL_COLOR) and 0 or (I == TRAX_CHANNEL_DEPTH) and 1 or (I == TRAX_CHANNEL_IR) and 2 or (-1)
+    return 0 if (I == TRAX_CHANNEL_COLOR) else 1 if (I == TRAX_CHANNEL_DEPTH) else 2 if (I == TRAX_CHANNEL_IR) else (-1)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 100
 def TRAX_CHANNEL_ID(I):
-- 
2.43.0


From 1353b456f16057662bc2f622cf585fdd62ee986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 52/55] fix: Python client without a log passed None where a
 function pointer is required

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 73ab494..05b94d4 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
-- 
2.43.0


From ffcc4b26d6915ea23511a7e35740f76e52e03b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 53/55] fix: overlap with a special region does not read
 polygon storage

---
 src/region.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/region.c b/src/region.c
index 42d79fa..e14bcd8 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1261,6 +1261,11 @@ void region_get_mask_offset(const region_container* r, char* mask, int x, int y,
 		}
 
 		return;
+	} else if (r->type != RECTANGLE && r->type != POLYGON) {
+
+		// A special region covers no pixels
+		memset(mask, 0, width * height * sizeof(char));
+
 	} else {
 
 		region_polygon p;
-- 
2.43.0


From ee8d2b731b11d38f1e6e6160d4ce6513f5ec273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 54/55] fix: point test of a mask at negative coordinates stays
 inside the mask

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index e14bcd8..0e7ddaa 100644
--- a/src/region.c
+++ b/src/region.c
@@ -828,7 +828,7 @@ int point_in_mask(const region_mask* mask, float x, float y) {
 	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[((int)floor(x) - mask->x) + ((int)floor(y) - mask->y) * mask->width] != 0;
 }
 
 
-- 
2.43.0


From f45022ab4c702a451db3672eb2b05c1075b289cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:50 +0000
Subject: [PATCH 55/55] fix: keep the custom properties in the C++ description
 of a session

---
 src/traxpp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 0a564e0..d72d1ce 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -138,6 +138,10 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+	// The further properties are a part of the description
+	if (metadata->custom)
+		trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0

