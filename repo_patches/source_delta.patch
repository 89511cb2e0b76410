From 9dc0e38e5c65301bf7cde6e399298e03e2d4118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 001/102] fix: bound formatted writes (SPRINTF, VSPRINTF, last
 error message) to the given buffer size

---
 src/viriatum_commons/debug/error.h        |  7 ++--
 src/viriatum_commons/system/system_util.h | 42 ++++++++++++++++++++---
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/debug/error.h b/src/viriatum_commons/debug/error.h
index 90ab7b3..e81e216 100644
--- a/src/viriatum_commons/debug/error.h
+++ b/src/viriatum_commons/debug/error.h
@@ -94,11 +94,14 @@ static __inline unsigned char *get_last_error_message_safe() {
 }
 
 static __inline void set_last_error_message(unsigned char *error_message) {
-    memcpy(
+    size_t size = strlen((char *) error_message);
+    if(size > ERROR_BUFFER_SIZE - 1) { size = ERROR_BUFFER_SIZE - 1; }
+    memmove(
         (char *) last_error_message_b,
         (char *) error_message,
-        strlen((char *) error_message) + 1
+        size
     );
+    last_error_message_b[size] = '\0';
     last_error_message = last_error_message_b;
 }
 
diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..8a734a4 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -27,6 +27,40 @@
 
 #pragma once
 
+#include <stdio.h>
+#include <stdarg.h>
+
+#ifndef VIRIATUM_PLATFORM_MSC
+/**
+ * Formats the provided arguments into the target buffer never
+ * writing more than the provided size (including the terminator),
+ * text that does not fit in the buffer is truncated.
+ *
+ * @param buffer The buffer to receive the formatted text.
+ * @param size The size of the buffer in bytes.
+ * @param format The format to be used.
+ * @param args The arguments for the format.
+ * @return The number of bytes effectively written to the buffer
+ * (excluding the terminator).
+ */
+static __inline int vformat_bounded(char *buffer, size_t size, const char *format, va_list args) {
+    int count;
+    if(size == 0) { return 0; }
+    count = vsnprintf(buffer, size, format, args);
+    if(count < 0) { buffer[0] = '\0'; return 0; }
+    return (size_t) count < size ? count : (int) (size - 1);
+}
+
+static __inline int format_bounded(char *buffer, size_t size, const char *format, ...) {
+    int count;
+    va_list args;
+    va_start(args, format);
+    count = vformat_bounded(buffer, size, format, args);
+    va_end(args);
+    return count;
+}
+#endif
+
 #ifdef VIRIATUM_PLATFORM_WIN32
 #ifndef F_OK
 #define F_OK 00
@@ -62,8 +96,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) format_bounded(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vformat_bounded(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
@@ -92,8 +126,8 @@
 
 #ifdef VIRIATUM_PLATFORM_MINGW
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) format_bounded(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vformat_bounded(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From 0d86e26242f639f4195b441bbf34c25f4176cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 002/102] fix: limit the request path to the url buffer of the
 file handler

---
 src/viriatum/handlers/handler_file.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..b5db721 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -270,6 +270,10 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* limits the size of the path to the space available in the
+    url buffer (the remaining part of it is truncated) */
+    if(path_size > VIRIATUM_MAX_URL_SIZE - 1) { path_size = VIRIATUM_MAX_URL_SIZE - 1; }
+
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
@@ -915,6 +919,10 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         (struct handler_file_context_t *) http_parser->context;
     unsigned char *base_path = handler_file_context->base_path;
 
+    /* limits the size of the path to the space available in the
+    url buffer (the remaining part of it is truncated) */
+    if(data_size > VIRIATUM_MAX_URL_SIZE - 1) { data_size = VIRIATUM_MAX_URL_SIZE - 1; }
+
     /* copies the memory from the data to the url and then
     puts the end of string in the url, note that only the path
     part of the string is used for the url */
-- 
2.43.0


From 77030e84c0b18b1cf42ea0ac4665fd67ad68923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 003/102] fix: limit header values to the buffers of the file
 handler context

---
 src/viriatum/handlers/handler_file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index b5db721..399865d 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -377,24 +377,28 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
+            if(data_size > sizeof(handler_file_context->etag) - 1) { data_size = sizeof(handler_file_context->etag) - 1; }
+            memcpy(handler_file_context->etag, data, data_size);
+            handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size > sizeof(handler_file_context->cache_control) - 1) { data_size = sizeof(handler_file_context->cache_control) - 1; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size > sizeof(handler_file_context->authorization) - 1) { data_size = sizeof(handler_file_context->authorization) - 1; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size > sizeof(handler_file_context->range) - 1) { data_size = sizeof(handler_file_context->range) - 1; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
-- 
2.43.0


From 9dbff8a56682b862958de33035c4058627e64e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 004/102] fix: size the redirect and listing buffers of the
 file handler for any url

---
 src/viriatum/handlers/handler_file.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 399865d..2681363 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -445,7 +445,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
-    unsigned char location[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char location[VIRIATUM_MAX_URL_SIZE + 1];
     unsigned char template_path[VIRIATUM_MAX_PATH_SIZE];
 
     /* allocates space for the computation of the time
@@ -467,7 +467,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
-    char folder_path[VIRIATUM_MAX_PATH_SIZE];
+    char folder_path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -536,7 +536,8 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
-        if(handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
+        if(handler_file_context->url[0] == '\0' ||\
+            handler_file_context->url[strlen((char *) handler_file_context->url) - 1] != '/') {
             /* creates the new location by adding the slash character to the current
             handler file context url (avoids directory confusion) */
             memcpy(location, handler_file_context->url, strlen((char *) handler_file_context->url));
-- 
2.43.0


From 481cc37ecd0105e3977950cbb2b91c50c407189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 005/102] fix: keep percent decoding inside the given length
 and terminate partial results

---
 src/viriatum_commons/encoding/percent.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..922f819 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,14 +99,17 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if(length - (size_t) (pointer - buffer) > 2 && pointer[1] && pointer[2]) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
                 *__buffer++ = from_hex(pointer[1]) << 4 | from_hex(pointer[2]);
                 pointer += 2;
             } else {
-                /* raises an error */
+                /* closes the part decoded so far with the null value and
+                then raises an error */
+                *__buffer = '\0';
+                *length_pointer = __buffer - _buffer;
                 RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem decoding URL string");
             }
         }
-- 
2.43.0


From adc75fb2c07645ca78cecf70c14d6b456ff73b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 006/102] fix: refuse file requests that leave the base path
 through parent directory segments

---
 src/viriatum/handlers/handler_file.c | 40 ++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 2681363..e5228fa 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -29,6 +29,31 @@
 
 #include "handler_file.h"
 
+/**
+ * Counts the parent directory (dot dot) segments that exist
+ * in the provided path.
+ *
+ * @param path The (decoded) path to be verified.
+ * @return The number of parent directory segments in the path.
+ */
+static size_t _count_parents_handler_file(const unsigned char *path) {
+    /* allocates space for the number of segments found and for
+    the flag that marks the start of a segment */
+    size_t count = 0;
+    unsigned char is_start = TRUE;
+
+    /* iterates over the complete path, a segment is delimited
+    by any of the (possible) separator characters */
+    for(; *path != '\0'; path++) {
+        if(is_start && path[0] == '.' && path[1] == '.' &&\
+            (path[2] == '\0' || path[2] == '/' || path[2] == '\\')) { count++; }
+        is_start = *path == '/' || *path == '\\';
+    }
+
+    /* returns the number of parent directory segments */
+    return count;
+}
+
 ERROR_CODE create_file_handler(struct file_handler_t **file_handler_pointer, struct http_handler_t *http_handler) {
     /* retrieves the file handler size */
     size_t file_handler_size = sizeof(struct file_handler_t);
@@ -511,8 +536,17 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
 
+    /* verifies that the path being requested stays inside the base
+    path, only the (configured) base path may contain references to
+    parent directories, otherwise the file is considered not found */
+    if(_count_parents_handler_file(handler_file_context->file_path_d) >\
+        _count_parents_handler_file(handler_file_context->base_path ?\
+        handler_file_context->base_path : (unsigned char *) VIRIATUM_CONTENTS_PATH)) {
+        error_code = RUNTIME_EXCEPTION_ERROR_CODE;
+    }
+
     /* checks if the path being request is in fact a directory */
-    is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
+    else { is_directory_file((char *) handler_file_context->file_path_d, &is_directory); }
 
     /* in case the auth basic value is set in the current file
     context must proceed with the authentication process for
@@ -533,7 +567,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 
     /* in case the file path being request referes a directory
     it must be checked and the entries retrieved to be rendered */
-    if(is_directory) {
+    if(IS_ERROR_CODE(error_code)) {
+        /* the path is not valid, no access to it is allowed */
+    } else if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
         if(handler_file_context->url[0] == '\0' ||\
-- 
2.43.0


From 2888bf6901d33a360631c4adefcc7899b045f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 007/102] fix: deny access to protected locations when the
 authentication cannot be completed

---
 src/viriatum/handlers/handler_file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index e5228fa..5c56add 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -552,17 +552,21 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     context must proceed with the authentication process for
     the current authorization value */
     if(handler_file_context->auth_basic != NULL) {
+        /* access is denied unless the authentication process is able
+        to confirm the provided credentials (secure by default) */
+        auth_result = FALSE;
+
         /* in case the authorization status is defined as set
         must proceed with the authorization, otherwise invalidates
         the authorization result immediately (no information has
         been provided from the client side) */
-        if(handler_file_context->authorization_status == 2) {
+        if(handler_file_context->authorization_status == 2 && handler_file_context->auth_file != NULL) {
             auth_http(
                 (char *) handler_file_context->auth_file,
                 (char *) handler_file_context->authorization,
                 &auth_result
             );
-        } else { auth_result = FALSE; }
+        }
     }
 
     /* in case the file path being request referes a directory
-- 
2.43.0


From b8f78c4c75a9b0a4ea10ca972ef3313ffa7d40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 008/102] fix: refuse credentials that do not fit the
 authentication buffers

---
 src/viriatum/http/http_util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..576ec67 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -630,6 +630,16 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* in case any of the values does not fit the internal buffers they
+    are considered to be invalid (avoids buffer overflow) */
+    if(username_size > sizeof(username) - 1 || password_size > sizeof(password) - 1) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Authorization credentials too long"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
-- 
2.43.0


From e3661c1dd7f50b7cd05fc38b1e19a0cfb97c374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 009/102] fix: fail the authentication when the passwd file
 cannot be processed

---
 src/viriatum/http/http_util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 576ec67..50dcdef 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -650,7 +650,11 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_AGAIN(return_value);
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
-- 
2.43.0


From 6ae14a24a2f63f8865ac2f385910775571282523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 010/102] fix: do not leak the passwd map when the file cannot
 be read

---
 src/viriatum_commons/formats/passwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..d2ad39e 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -61,7 +61,6 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     associated a username with a password and then allocates the
     internal structures for it (no pre-defined size) */
     struct hash_map_t *passwd;
-    create_hash_map(&passwd, 0);
 
     /* reads the complete set of contents from the file with the
     provided path an in case an error occurs re-raises it */
@@ -73,6 +72,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
             file_path
         );
     }
+    create_hash_map(&passwd, 0);
 
     /* sets the initial values for the mark pointer and for the
     state control flag, these represent the start of the loop */
-- 
2.43.0


From a7cba6f6a70ea8bc30c2934b497eee843de18062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 011/102] fix: accept usernames of any size in passwd files

---
 src/viriatum_commons/formats/passwd.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index d2ad39e..1308b1f 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -52,9 +52,9 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     unsigned char *pointer;
 
     /* allocates the space for the username and for the password
-    to be parsed, note that the username is allocated in stack
-    (static memory) as it's not going to be stored in map */
-    char username[128];
+    to be parsed, note that the username is not going to be
+    stored in map and so it's released at the end of parsing */
+    char *username;
     char *password;
 
     /* creates the "final" hash map that is going to be used to
@@ -74,6 +74,10 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     }
     create_hash_map(&passwd, 0);
 
+    /* allocates the username with the size of the complete file
+    as no username may be larger than that value */
+    username = (char *) MALLOC(size + 1);
+
     /* sets the initial values for the mark pointer and for the
     state control flag, these represent the start of the loop */
     mark = buffer;
@@ -138,6 +142,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
 
     /* releases the buffer with the file contents used during
     the parsing of the passwd file (avoids memory leaks) */
+    FREE(username);
     FREE(buffer);
 
     /* updates the passwd structure pointer with the currently
-- 
2.43.0


From 41f31dafb8580c7cdffff0f76b217c72a7ac2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 012/102] fix: keep served ranges inside the file and refuse
 the unsatisfiable ones

---
 src/viriatum/handlers/handler_file.c | 20 ++++++++++++++++++--
 src/viriatum/http/http_util.c        | 23 +++++++++++++++++------
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 5c56add..d0fdd57 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -842,13 +842,29 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     else if(handler_file_context->range_status == 2) {
         /* retrieves the initial and final bytes for the requested
         range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+        size that is provided, in case there's no part of the file
+        in the range an error is sent to the client */
+        error_code = get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
         );
+        if(IS_ERROR_CODE(error_code)) {
+            write_http_error(
+                connection,
+                headers_buffer,
+                VIRIATUM_HTTP_SIZE,
+                HTTP11,
+                416,
+                "Requested Range Not Satisfiable",
+                "Range not satisfiable",
+                keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
+                _cleanup_handler_file,
+                handler_file_context
+            );
+            RAISE_NO_ERROR;
+        }
 
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 50dcdef..c12beda 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -471,14 +471,15 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
 
             case '\0':
             case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
+                /* only the first range is taken into account, the
+                remaining part of the value is ignored */
+                range_s = index;
                 break;
         }
+
+        /* in case the end of the (first) range has been reached
+        breaks the loop keeping the index at its end */
+        if(range_s == index) { break; }
     }
 
     /* in case the final byte value hasn't been already
@@ -497,6 +498,16 @@ ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, siz
     *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
     *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
 
+    /* limits the final byte to the last byte of the contents and in
+    case the resulting range is empty raises an error */
+    if(*final_byte >= size) { *final_byte = size - 1; }
+    if(size == 0 || *initial_byte > *final_byte) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Range not satisfiable"
+        );
+    }
+
     /* raises no error as both the initial and the final
     byte values have been computed with success */
     RAISE_NO_ERROR;
-- 
2.43.0


From bf84f2fa963add6f1f8cbcdcdfe9a117794b8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 013/102] fix: never write the response message past the end of
 its buffer

---
 src/viriatum/http/http_util.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index c12beda..36226cf 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -170,7 +170,25 @@ size_t write_http_headers_m(
         cache,
         TRUE
     );
-    memcpy(&buffer[count], message, content_length + 1);
+
+    /* in case the message does not fit the remaining part of the buffer
+    truncates it, announcing the new (smaller) content length */
+    if(content_length > size - count - 1) {
+        content_length = size - count - 1;
+        count = write_http_headers_c(
+            connection,
+            buffer,
+            size,
+            version,
+            status_code,
+            status_message,
+            keep_alive,
+            content_length,
+            cache,
+            TRUE
+        );
+    }
+    SPRINTF(&buffer[count], size - count, "%.*s", (int) content_length, message);
 
     /* returns the number of bytes written into the buffer */
     return count;
-- 
2.43.0


From 250e0c3280f7ba87aeed1252808b822664b3173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 014/102] fix: close the connection when the file to be sent
 cannot be opened

---
 src/viriatum/handlers/handler_file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index d0fdd57..bde8872 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1270,6 +1270,13 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         that the proper encoding is set for the path */
         open_file((char *) file_path, "rb", &file);
 
+        /* in case the file is no longer available there's no way to
+        send the announced contents, closes the connection */
+        if(file == NULL) {
+            connection->close_connection(connection);
+            RAISE_NO_ERROR;
+        }
+
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
         of the current file for reading */
-- 
2.43.0


From 7487f1cd00b52aa4c46ea04727f0172b4117437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 015/102] fix: do not leak the listing template of unauthorized
 requests

---
 src/viriatum/handlers/handler_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index bde8872..a88d6fd 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -573,6 +573,8 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     it must be checked and the entries retrieved to be rendered */
     if(IS_ERROR_CODE(error_code)) {
         /* the path is not valid, no access to it is allowed */
+    } else if(!auth_result) {
+        /* the request is not authorized, no contents are required */
     } else if(is_directory) {
         /* in case the current url does not ends with the trailing slash must
         redirect the user agent to the same location but with the trauling slash */
-- 
2.43.0


From 37c79d2cf2777231499ec018d96c6b9a612fd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 016/102] fix: keep the request path and its index file inside
 the path buffer of the dispatch handler

---
 src/viriatum/handlers/handler_dispatch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..fdef4ef 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -222,6 +222,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
+    /* limits the size of the path to the space available in the
+    path buffer (the remaining part of it is truncated) */
+    if(path_size > sizeof(path) - 1) { path_size = sizeof(path) - 1; }
+
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
     memcpy(path, data, path_size);
@@ -279,7 +283,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
             the regular expression pipe, for handler resolution */
-            if(index_ != NULL) {
+            if(index_ != NULL && strlen(index_) < sizeof(path) - path_size) {
                 /* calculates the size of the index path so that
                 it's possible to copy it into the path string */
                 index_size = strlen(index_);
-- 
2.43.0


From 0047190f6d440fbf474c54e5e02e9837bbaa6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 017/102] fix: keep the matched location and virtual url valid
 when an index file is resolved

---
 src/viriatum/handlers/handler_dispatch.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index fdef4ef..9fa687e 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -319,6 +319,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 
                 /* in case the matching index has changed a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
+                if(index == dispatch_handler->regex_count) { index = _index; }
                 if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
 #endif
             }
@@ -344,7 +345,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
             CALL_V(
                 http_connection->http_settings->on_location,
@@ -355,8 +356,8 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-                data + virtual_url_offset,
-                data_size - virtual_url_offset
+                virtual_url_offset < data_size ? data + virtual_url_offset : data + data_size,
+                virtual_url_offset < data_size ? data_size - virtual_url_offset : 0
             );
         }
 #endif
-- 
2.43.0


From 9a78d2e71e3794a3254a5a810d6cdfb0ab34dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 018/102] fix: do not dispatch to a missing handler after
 resolving an index file

---
 src/viriatum/handlers/handler_dispatch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 9fa687e..cb73225 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -325,6 +325,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             }
         }
 
+        /* in case the handler for the index file is not available
+        prints an error, the current handler remains in place */
+        if(handler == NULL) {
+            V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+            RAISE_NO_ERROR;
+        }
+
         /* retrieves the current handler and then unsets it
         from the connection (detach) then sets the the proper
         handler in the connection and notifies it of the url */
-- 
2.43.0


From 981e83501a3dfe4bedf295e311b9ad807e374aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 019/102] fix: grow the request buffer of the proxy in place of
 its response buffer

---
 src/viriatum/handlers/handler_proxy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..96721a4 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -247,7 +247,7 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From c27750af8e0353066bd944045798ad700fbc9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 020/102] fix: keep the forwarded request line inside the
 buffers of the proxy handler

---
 src/viriatum/handlers/handler_proxy.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..6b0c0b8 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -490,8 +490,8 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
 
     /* allocates two buffers for temporary and local operations to
     in the current callback function */
-    char buffer[1024];
-    char path[1024];
+    char buffer[VIRIATUM_MAX_URL_SIZE + 128];
+    char path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
@@ -525,12 +525,13 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
 
     /* copies the virtual url value into the local path buffer and then
     closes it as a null terminated string */
+    if(data_size >= sizeof(path)) { data_size = sizeof(path) - 1; }
     memcpy(path, data, data_size);
     path[data_size] = '\0';
 
     /* writes the initial line of the HTTP message into the temporary buffer
     and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
+    size_m = SPRINTF(buffer, sizeof(buffer), "%s %s %s\r\n", method, path, version);
     write_proxy_buffer(handler_proxy_context, buffer, size_m);
 
     /*@todo: can put here the extra headers to be sent to the backend */
-- 
2.43.0


From 6d4372a3c9d60ed63e5f81bb7ef037e4afed4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 021/102] fix: do not throttle a backend connection that is
 already gone

---
 src/viriatum/handlers/handler_proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 6b0c0b8..d2ab46d 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -907,7 +907,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += data_size;
-    if(connection_c->read_registered == TRUE &&\
+    if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
-- 
2.43.0


From f19a04d1638531271f485c518bb0056a9fc40177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 022/102] fix: release the previous parameters of a backend
 connection that is used again

---
 src/viriatum/handlers/handler_proxy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d2ab46d..17e87a4 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -652,6 +652,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         /* sets the protocol for the "client" connection as custom and sets
         the "custom" parameters structure in it so that the callback functions
         may be controlled for the HTTP proxy behaviour */
+        if(connection_c->parameters != NULL) { FREE(connection_c->parameters); }
         connection_c->protocol = CUSTOM_PROTOCOL;
         connection_c->parameters = (void *) parameters;
     }
-- 
2.43.0


From 1a316c610062383dffccf3b3fbea5e701e21a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 023/102] fix: refuse malformed base 64 data instead of
 decoding past its buffers

---
 src/viriatum_commons/encoding/base_64.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..8e706fd 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -63,7 +63,26 @@ ERROR_CODE decode_base64(
     size_t *decoded_buffer_length_pointer
 ) {
     /* retrieves the padding count from the encoded buffer */
-    unsigned int padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    unsigned int padding_count;
+
+    /* in case the encoded buffer is not made of complete groups of four
+    characters it's not possible to decode it */
+    if(encoded_buffer_length % 4 != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid base 64 length"
+        );
+    }
+
+    /* counts the padding characters, there's never more than two
+    of them in the last group of a valid buffer */
+    padding_count = _get_padding_count(encoded_buffer, encoded_buffer_length);
+    if(padding_count > 2) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Invalid base 64 padding"
+        );
+    }
 
     /* allocates the decoded buffer according to the pre-defined
     rules and then assigns the decoded buffer length */
@@ -295,6 +314,9 @@ unsigned int _get_padding_count(unsigned char *encoded_buffer, size_t encoded_bu
     /* allocates the padding count */
     int padding_count = 0;
 
+    /* in case the buffer is empty there's no padding in it */
+    if(encoded_buffer_length == 0) { return 0; }
+
     /* iterates over the encoded buffer */
     for(index = (unsigned int) encoded_buffer_length - 1; index > 0 ; index--) {
         /* retireve the current value */
-- 
2.43.0


From c9d25673a317348e696baee7aee128000ab7cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:26 +0000
Subject: [PATCH 024/102] fix: separate the length required and precondition
 failed status messages

---
 src/viriatum/http/http_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index c4ff195..952fb13 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -131,7 +131,7 @@ static const char *http_status_codes[5][64] = {
         "Request Timeout",
         "Conflict",
         "Gone",
-        "Length Required"
+        "Length Required",
         "Precondition Failed",
         "Request Entity Too Large",
         "Request-URI Too Long",
-- 
2.43.0


From e2d7415c8e8f7df750b9e619594fbc40ea9c6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 025/102] fix: do not take bytes above the ascii range for zero
 digits of a chunk size

---
 src/viriatum/http/http_parser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..16f131e 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -184,6 +184,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From 1744ea63b82fd481dc91c30e9a5a94936b6f8ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 026/102] fix: give the box of the rc4 cipher room for all of
 its 256 entries

---
 src/viriatum_commons/crypto/rc4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/crypto/rc4.h b/src/viriatum_commons/crypto/rc4.h
index 1a74dec..bb39ee1 100644
--- a/src/viriatum_commons/crypto/rc4.h
+++ b/src/viriatum_commons/crypto/rc4.h
@@ -31,7 +31,7 @@ typedef struct rc4_t {
     char *key;
     unsigned char x;
     unsigned char y;
-    unsigned char box[255];
+    unsigned char box[256];
 } rc4;
 
 VIRIATUM_EXPORT_PREFIX void create_rc4(char *key, struct rc4_t **rc4_pointer);
-- 
2.43.0


From 92b9701a5f3e6352fa17fd608a02491ad622794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 027/102] fix: keep the message of the IM Used status at the
 index of its code

---
 src/viriatum/http/http_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index 952fb13..164cebc 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -106,7 +106,7 @@ static const char *http_status_codes[5][64] = {
         "Partial Content",
         "Multi-Status",
         "Already Reported",
-        "IM Used"
+        [26] = "IM Used"
     },
     {
         "Multiple Choices",
-- 
2.43.0


From f3dc73d20249b768469cd1656756936558f88b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 028/102] fix: do not touch a missing or destroyed service from
 the signal handler

---
 src/viriatum/viriatum.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2bb5fac..2eff898 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -93,15 +93,18 @@ ERROR_CODE init_service(char *program_name, struct hash_map_t *arguments) {
 }
 
 ERROR_CODE destroy_service() {
+    /* saves the reference to the service to be destroyed */
+    struct service_t *_service = service;
+
     /* prints a debug message about the initial stage
     of the service structures destruction */
     V_DEBUG("Destroying the service structures\n");
 
-    /* deletes the service, disallowing any further
-    access to the service instance, and then sets its
-    reference back to the original (unset sate) */
-    delete_service(service);
+    /* sets the service reference back to the original (unset
+    state), disallowing any further access to the instance (eg:
+    from a signal handler) and only then deletes the service */
     service = NULL;
+    delete_service(_service);
 
     /* prints a debug message about the final stage
     of the service structures destruction */
@@ -173,8 +176,9 @@ ERROR_CODE ran_service() {
     /* allocates the return value */
     ERROR_CODE return_value;
 
-    /* in case the service status is open */
-    if(service->status == STATUS_CLOSED) {
+    /* in case there's no service (not yet created or already
+    destroyed) or it's not open there's nothing to be stopped */
+    if(service == NULL || service->status == STATUS_CLOSED) {
         /* prints a debug message */
         V_DEBUG("No service to be stopped\n");
     } else {
-- 
2.43.0


From 19dce6a87ad51ffcb794079c04a11415b4699440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 029/102] fix: start as daemon when the pid file cannot be
 written

---
 src/viriatum/viriatum.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index 2eff898..daadd15 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -325,10 +325,12 @@ void daemonize() {
     this will allow external programs to make sure viriatum
     is correctly running */
     FOPEN(&pid_file, VIRIATUM_PID_PATH, "wb");
-    SPRINTF(pid_string, 1024, "%d\n", pid);
-    pid_string_length = strlen(pid_string);
-    fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
-    fclose(pid_file);
+    if(pid_file != NULL) {
+        SPRINTF(pid_string, 1024, "%d\n", pid);
+        pid_string_length = strlen(pid_string);
+        fwrite(pid_string, sizeof(char), pid_string_length, pid_file);
+        fclose(pid_file);
+    }
 
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
-- 
2.43.0


From f14c5136821bc3ad71dac700284ac13dd18af5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:54 +0000
Subject: [PATCH 030/102] fix: release what was acquired when the loading of a
 module fails

---
 src/viriatum/module/loading.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/module/loading.c b/src/viriatum/module/loading.c
index 914c47f..686e819 100644
--- a/src/viriatum/module/loading.c
+++ b/src/viriatum/module/loading.c
@@ -162,6 +162,7 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
         /* prints a warning message, and then raises
         an error indicating the problem loading the library */
         V_WARNING_F("No such symbol '%s' in library\n", info_module_name);
+        UNLOAD_LIBRARY(library);
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem finding symbol");
     } else {
         /* prints a debug message about the finding of
@@ -187,8 +188,14 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
 
     /* tests the error code for error */
     if(IS_ERROR_CODE(error_code)) {
-        /* prints a warning message */
+        /* prints a warning message and then releases the complete
+        set of structures created for the loading, as the module
+        is not going to be used */
         V_WARNING_F("%s\n", GET_ERROR_MODULE(module));
+        delete_module(module);
+        delete_environment(environment);
+        UNLOAD_LIBRARY(library);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem retrieving module information");
     }
 
     /* calls the start module function, this sould
@@ -197,8 +204,14 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
 
     /* tests the error code for error */
     if(IS_ERROR_CODE(error_code)) {
-        /* prints a warning message */
+        /* prints a warning message and then releases the complete
+        set of structures created for the loading, as the module
+        is not going to be used */
         V_WARNING_F("%s\n", GET_ERROR_MODULE(module));
+        delete_module(module);
+        delete_environment(environment);
+        UNLOAD_LIBRARY(library);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem starting module");
     }
 
     /* adds the module to the list of modlues handlers in the service */
-- 
2.43.0


From d58686b0665d5e5cc784b653c306282c9b140798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:54 +0000
Subject: [PATCH 031/102] fix: start every field of the module and environment
 structures

---
 src/viriatum/module/loading.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viriatum/module/loading.c b/src/viriatum/module/loading.c
index 686e819..bb0c689 100644
--- a/src/viriatum/module/loading.c
+++ b/src/viriatum/module/loading.c
@@ -38,6 +38,7 @@ ERROR_CODE create_environment(struct environment_t **environment_pointer) {
 
     /* sets the environment attributes (default) values */
     environment->name = NULL;
+    environment->service = NULL;
 
     /* sets the environment in the environment pointer */
     *environment_pointer = environment;
@@ -63,12 +64,14 @@ ERROR_CODE create_module(struct module_t **module_pointer) {
 
      /* sets the module attributes (default) values */
     module->name = NULL;
+    module->name_s = NULL;
     module->version = NULL;
     module->type = 0;
     module->start = NULL;
     module->stop = NULL;
     module->info = NULL;
     module->error = NULL;
+    module->environment = NULL;
     module->library = NULL;
     module->lower = NULL;
 
-- 
2.43.0


From 2db26d5bdd8822791632278ccb69c00b40601649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:54 +0000
Subject: [PATCH 032/102] fix: do not read past the end of module file names
 shorter than the prefix

---
 src/viriatum/module/loading.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/module/loading.h b/src/viriatum/module/loading.h
index 0f2f035..8a5c090 100644
--- a/src/viriatum/module/loading.h
+++ b/src/viriatum/module/loading.h
@@ -301,8 +301,12 @@ static __inline void module_name(unsigned char *module_path, unsigned char *buff
     unsigned char *module_name = base_string_value(module_path);
 
     /* "removes" the initial part of the module name refering
-    to the "mandatory" viriatum suffix */
-    module_name = &module_name[VIRIATUM_MODULE_PREFIX];
+    to the "mandatory" viriatum suffix, in case the name is not
+    long enough for it the resulting name is empty */
+    size_t name_size = strlen((char *) module_name);
+    size_t prefix_size = VIRIATUM_MODULE_PREFIX;
+    if(prefix_size > name_size) { prefix_size = name_size; }
+    module_name = &module_name[prefix_size];
 
     /* iterates continuously to find the appropriate file name
     of the module element */
-- 
2.43.0


From 64e4cf2aa7d45eb10b1b31e4fcc413f77fe48d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:54 +0000
Subject: [PATCH 033/102] fix: keep the label of the loaded modules inside its
 buffer

---
 src/viriatum/system/service.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..0f54c5d 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1364,6 +1364,7 @@ ERROR_CODE create_modules_label(struct service_t *service) {
     struct iterator_t *modules_list_iterator;
     unsigned char is_first = TRUE;
     unsigned char *buffer = service->modules;
+    size_t available = sizeof(service->modules) - 1;
 
     /* creates the iterator for the linked list */
     create_iterator_linked_list(service->modules_list, &modules_list_iterator);
@@ -1377,6 +1378,12 @@ ERROR_CODE create_modules_label(struct service_t *service) {
         get_next_iterator(modules_list_iterator, (void **) &current_module);
         if(current_module == NULL) { break; }
 
+        /* retrieves the size of the current module name and in case
+        there's no space left for it (and for the separator) in the
+        label stops the creation of the label */
+        name_size = strlen((char *) current_module->name_s);
+        if(name_size + 1 > available) { break; }
+
         /* in case this is the first iteration no extra space
         copy occurs, otherwise the space is copied to the buffer */
         if(is_first) {
@@ -1384,13 +1391,13 @@ ERROR_CODE create_modules_label(struct service_t *service) {
         } else {
             memcpy(buffer, " ", 1);
             buffer += 1;
+            available -= 1;
         }
 
-        /* retrieves the size of the current module name and
-        then copies the name of it into the buffer */
-        name_size = strlen((char *) current_module->name_s);
+        /* copies the name of the current module into the buffer */
         memcpy(buffer, current_module->name_s, name_size);
         buffer += name_size;
+        available -= name_size;
     }
 
     /* closes the buffer with the final end of string charater
-- 
2.43.0


From 0a718f08370044373c08b26c00b26011f708523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 034/102] fix: never look up the message of a status code
 outside of its table

---
 src/viriatum/handlers/handler_proxy.c | 4 ++++
 src/viriatum/http/http_util.h         | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 17e87a4..d516599 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -817,6 +817,10 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
     unsigned short status_code = http_parser->status_code;
     const char *status_message = GET_HTTP_STATUS(status_code);
 
+    /* in case the status code has no pre-defined message an empty one
+    is used, so that any code coming from the backend is accepted */
+    if(status_message == NULL) { status_message = ""; }
+
     /* writes the status line (should mimic the received one) into a local
     buffer and then writes this buffer into the output buffer */
     size_m = SPRINTF(buffer, 1024, "%s %d %s\r\n", version, status_code, status_message);
diff --git a/src/viriatum/http/http_util.h b/src/viriatum/http/http_util.h
index 164cebc..bb6e2c5 100644
--- a/src/viriatum/http/http_util.h
+++ b/src/viriatum/http/http_util.h
@@ -29,7 +29,8 @@
 
 #include "../system/service.h"
 
-#define GET_HTTP_STATUS(code) http_status_codes[(code / 100) - 1][code % 100]
+#define GET_HTTP_STATUS(code) (((code) >= 100 && (code) < 600 && (code) % 100 < 64) ?\
+    http_status_codes[(code) / 100 - 1][(code) % 100] : NULL)
 
 /* forward references (avoids loop) */
 struct data_t;
-- 
2.43.0


From 483321a2d95c5d01bae7ece3433f8b7eddecf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 035/102] fix: close the client when the backend closes in the
 middle of a response

---
 src/viriatum/handlers/handler_proxy.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d516599..b28419a 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -752,6 +752,7 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
 
     /* resolves the service connection (proxy client) into the proper io
     and HTTP connection and then restores the close handler to them */
+    if(connection_s == NULL) { RAISE_NO_ERROR; }
     io_connection_s = (struct io_connection_t *) connection_s->lower;
     io_connection_s->on_close = on_close;
 
@@ -778,14 +779,20 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         the service (proxy client) connection */
         if(handler_proxy_context->pending) {
             write_connection_c(
-                connection,
+                connection_s,
                 (unsigned char *) "",
                 0,
                 _cleanup_handler_proxy,
                 NULL,
                 FALSE
             );
+            handler_proxy_context->pending = FALSE;
         }
+
+        /* releases the parameters of the backend connection as there's
+        no other reference to them from now on */
+        FREE(custom_parameters);
+        connection->parameters = NULL;
     }
 
     /* raises no error as the processing of the close opearion
-- 
2.43.0


From 6ab34feddb9a5c353e4da87d259d8adfbaff2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 036/102] fix: close the backend connection when its data
 cannot be parsed

---
 src/viriatum/handlers/handler_proxy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index b28419a..f849e7b 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -666,6 +666,7 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     /* allocates space for the proxy context that may be retrieved
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
+    int processed_size;
 
     /* retrieves the top level connection object from the io connection
     and then uses it to retrieve its parameters */
@@ -687,12 +688,16 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     the data that has been retrieved from the backend server, this should trigger a
     series of callbacks for the various stages of the parsing, then returns the control
     flow to the caller function (everything went well) */
-    process_data_http_parser(
+    processed_size = process_data_http_parser(
         handler_proxy_context->http_parser,
         handler_proxy_context->http_settings,
         buffer,
         buffer_size
     );
+
+    /* in case the data of the backend could not be parsed there's no way
+    to keep using the connection, it must be closed */
+    if(processed_size == -1) { connection->close_connection(connection); }
     RAISE_NO_ERROR;
 }
 
-- 
2.43.0


From 4740278ca518abbfdfa3235e770d0e4bf06bddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 037/102] fix: do not connect to a backend that was not
 configured

---
 src/viriatum/handlers/handler_proxy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index f849e7b..5da723c 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -575,6 +575,13 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     /* in case the connection client reference structure for the current
     context is not defined a new connection must be created */
     if(handler_proxy_context->connection_c == NULL) {
+        /* in case there's no backend defined for the current location
+        returns immediately, the request is answered with an error */
+        if(handler_proxy_context->proxy_pass == NULL) {
+            FREE(parameters);
+            RAISE_NO_ERROR;
+        }
+
         /* creates a general HTTP client connection structure containing
         all the general attributes for a connection, then sets the
         "local" connection reference from the pointer */
-- 
2.43.0


From 686836a1681c74f03c223d56fccd10a39f48b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 038/102] fix: close the socket of a client connection that
 could not be established

---
 src/viriatum/system/client.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..1c343fd 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -62,7 +62,8 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     hostname string value in case the "resolution" fails raises
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
-    if(server == NULL) {
+    if(server == NULL || server->h_length != sizeof(serv_addr.sin_addr.s_addr)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From 7d0277786b2993577ff15c053819ef2258335a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:05 +0000
Subject: [PATCH 039/102] fix: close the connection when a file ends before the
 announced length

---
 src/viriatum/handlers/handler_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a88d6fd..a5670d0 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1327,6 +1327,10 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
         /* unsets the file from the handler file context */
         handler_file_context->file = NULL;
 
+        /* in case the file ended before the announced size was sent the
+        connection can't be kept alive (the response is not complete) */
+        if(remaining > 0) { handler_file_context->flags &= ~FLAG_KEEP_ALIVE; }
+
         /* runs the cleanup handler file (releases internal structures) */
         _cleanup_handler_file(connection, data, parameters);
 
-- 
2.43.0


From 73f300487ca2bb1a63f1d9f08c6a0d5f749dbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 040/102] fix: keep the request path below the base path of its
 location

---
 src/viriatum/handlers/handler_file.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a5670d0..48d2363 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -313,7 +313,7 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     file_path_size = SPRINTF(
         (char *) handler_file_context->file_path,
         VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
+        "%s%s/%s",
         VIRIATUM_CONTENTS_PATH,
         VIRIATUM_BASE_PATH,
         handler_file_context->url
@@ -1003,7 +1003,7 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         file_path_size = SPRINTF(
             (char *) handler_file_context->file_path,
             VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
+            "%s%s/%s",
             VIRIATUM_CONTENTS_PATH,
             VIRIATUM_BASE_PATH,
             handler_file_context->url
@@ -1017,7 +1017,7 @@ ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const u
         file_path_size = SPRINTF(
             (char *) handler_file_context->file_path,
             VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
+            "%s/%s",
             base_path,
             handler_file_context->url
         );
@@ -1092,7 +1092,7 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     file_path_size = SPRINTF(
         (char *) handler_file_context->file_path,
         VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
+        "%s/%s",
         location->base_path,
         partial_url
     );
-- 
2.43.0


From 01b45263a4ef41d9851ee69f263f22bea64e564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:31 +0000
Subject: [PATCH 041/102] fix: do not look for index files outside of the
 contents directory

---
 src/viriatum/handlers/handler_dispatch.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index cb73225..a8ec1b2 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -273,11 +273,12 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
         the selection of the index file as default is conditioned by the default
         index configuration option */
         if(handler->resolve_index && options->default_index
-            && (path_size == 0 || path[path_size - 1] == '/')) {
+            && (path_size == 0 || path[path_size - 1] == '/')
+            && strstr((char *) path, "..") == NULL) {
             /* creates the base path from the viriatum contents path
             and the current provided path and then runs the file existence
             validation process using the index array provided */
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
+            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s/%s", VIRIATUM_CONTENTS_PATH, path);
             index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
-- 
2.43.0


From dac0544358862fc526f63ecdb691740ead1b579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 042/102] fix: do not touch a connection that was closed while
 its data was handled

---
 src/viriatum/stream/stream_io.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..8a68d69 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -310,6 +310,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             the buffer pointer and the buffer size are reseted */
             buffer_pointer = (unsigned char *) buffer;
             buffer_size = 0;
+
+            /* in case the connection was closed while its data was
+            handled there's nothing more to be read from it (the upper
+            layers of the connection are already gone) */
+            if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
         }
 
         /* receives from the connection socket (takes into account the type
@@ -404,15 +409,16 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             /* in case there's data pending to be processed must flush
             it even though there was a fatal error the data must be
             correctly processed by the underlying layer */
-            if(buffer_size > 0) {
+            if(buffer_size > 0 && io_connection->on_data != NULL) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
             }
 
             /* closes the connection as the error was fatal, so this is the
-            best escape approach to solve the issue */
-            connection->close_connection(connection);
+            best escape approach to solve the issue, note that the connection
+            may have already been closed while handling the pending data */
+            if(connection->status != STATUS_CLOSED) { connection->close_connection(connection); }
 
             /* breaks the switch */
             break;
-- 
2.43.0


From 08fb95a28d7398e1ae75db13f13583000709cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 043/102] fix: only count the bytes that were received and sent

---
 src/viriatum/stream/stream_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 8a68d69..fd17b65 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -325,7 +325,6 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             VIRIATUM_READ_SIZE,
             0
         );
-        connection->received += number_bytes;
 
         /* in case the number of bytes is zero (connection closed) */
         if(number_bytes == 0) {
@@ -376,6 +375,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
         /* increments the buffer position, then increments
         the buffer size with the number of bytes and then
         increments the total ammount of bytes */
+        connection->received += number_bytes;
         buffer_pointer += number_bytes;
         buffer_size += number_bytes;
         total_bytes += number_bytes;
@@ -492,7 +492,6 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
             data->size,
             0
         );
-        connection->sent += number_bytes;
 
         /* in case there was an error receiving from the socket */
         if(SOCKET_TEST_ERROR(number_bytes)) {
@@ -540,6 +539,7 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
 
         /* prints a debug message */
         V_DEBUG_F("Data [%d bytes] sent without errors\n", number_bytes);
+        connection->sent += number_bytes;
 
         /* in case the number of bytes sent is the same as the value size
         (not all data has been sent) */
-- 
2.43.0


From 73fc696870d933d28b755aeb6aea3da9f042925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 044/102] fix: wait for the other direction when a secure
 connection asks for it

---
 src/viriatum/stream/stream_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index fd17b65..e9bc8cd 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -353,6 +353,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
 
 #ifdef VIRIATUM_SSL
                 case SSL_ERROR_WANT_READ:
+                case SSL_ERROR_WANT_WRITE:
                     /* prints a debug message, sets the error flag (non fatal)
                     and then breaks the current switch statement */
                     V_DEBUG("Read structures not ready: SSL_ERROR_WANT_READ\n");
@@ -511,6 +512,7 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
                     break;
 
 #ifdef VIRIATUM_SSL
+                case SSL_ERROR_WANT_READ:
                 case SSL_ERROR_WANT_WRITE:
                     /* prints a debug message */
                     V_DEBUG("Write structures not ready: SSL_ERROR_WANT_WRITE\n");
-- 
2.43.0


From e84badcb03dbd8f73fca6daf1ee21f0199f5a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 045/102] fix: handle a failed secure write as an error

---
 src/viriatum/stream/stream_io.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index e9bc8cd..18f1feb 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -494,6 +494,12 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
             0
         );
 
+#ifdef VIRIATUM_SSL
+        /* a secure connection reports its failures also with a zero value, no
+        data was sent in such situation, so it must be handled as an error */
+        if(connection->ssl_handle != NULL && number_bytes == 0 && data->size > 0) { number_bytes = -1; }
+#endif
+
         /* in case there was an error receiving from the socket */
         if(SOCKET_TEST_ERROR(number_bytes)) {
             /* retrieves the (sending) error code */
-- 
2.43.0


From de5b47e8354230d9b8657f4d08d6fad38f1de05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 046/102] fix: resume the handshake of a secure connection when
 it becomes writable

---
 src/viriatum/polling/polling_epoll.c  | 15 +++++++++++++++
 src/viriatum/polling/polling_select.c | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..fca4f7a 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -627,6 +627,21 @@ ERROR_CODE _call_polling_epoll(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the connection is still under the handshake the operation
+        is resumed as it may have been waiting for the socket to be writable,
+        data that was received meanwhile must be read right after it */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                CALL_V(current_connection->on_read, current_connection);
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..56cec3c 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -642,6 +642,21 @@ ERROR_CODE _call_polling_select(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the connection is still under the handshake the operation
+        is resumed as it may have been waiting for the socket to be writable,
+        data that was received meanwhile must be read right after it */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                CALL_V(current_connection->on_read, current_connection);
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
-- 
2.43.0


From 8a6bb8a9a1d0ec7d138c5ceab496b9c6bfe97999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:38 +0000
Subject: [PATCH 047/102] fix: close the connection when its secure handle
 cannot be created

---
 src/viriatum/stream/stream_io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 18f1feb..c88b32b 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -163,6 +163,16 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
                 /* creates the new ssl handle using the current service connection
                 ssl conext and sets the correct socked file descriptor in it */
                 ssl_handle = SSL_new(connection->ssl_context);
+
+                /* in case it was not possible to create the handle the connection
+                is closed, it must not continue as a plain one */
+                if(ssl_handle == NULL) {
+                    V_WARNING("Problem creating SSL handle\n");
+                    client_connection->close_connection(client_connection);
+                    if(!VIRIATUM_NON_BLOCKING) { break; }
+                    continue;
+                }
+
                 SSL_set_fd(ssl_handle, socket_handle);
 
                 /* prints a debug message about the creation of the new ssl handle
-- 
2.43.0


From 46714bbf70033218b3dc5bfd2cb65799cb4ed746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:25 +0000
Subject: [PATCH 048/102] fix: allow data to be queued on a connection that was
 closed meanwhile

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 0f54c5d..1a5ac71 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1683,7 +1683,7 @@ ERROR_CODE write_connection_c(
     /* adds the file buffer to the write queue and then
     registers the connection for write in the next loop */
     append_value_linked_list(connection->write_queue, (void *) _data);
-    connection->register_write(connection);
+    CALL_V(connection->register_write, connection);
 
     /* prints a debug message about the data that is going
     to be sent through the socket */
-- 
2.43.0


From d86ca09142c90187aac63f2443369bfa79a521f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:25 +0000
Subject: [PATCH 049/102] fix: mark a connection as closed before its closing
 is notified

---
 src/viriatum/system/service.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 1a5ac71..7921906 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1732,6 +1732,11 @@ ERROR_CODE close_connection(struct connection_t *connection) {
     /* prints a debug message */
     V_DEBUG_F("Closing connection: %d\n", connection->socket_handle);
 
+    /* updates the connection status to closed in order to notify any
+    logic acessing the connection about its state and to avoid a second
+    closing from the logic that is notified about this one */
+    connection->status = STATUS_CLOSED;
+
     /* in case the on close handler is defined */
     if(connection->on_close != NULL) {
         /* prints a debug message about the handler to be called
@@ -1769,11 +1774,9 @@ ERROR_CODE close_connection(struct connection_t *connection) {
     }
 #endif
 
-    /* closes the socket associated with the connection and then
-    updates the connection status to closed in order to notify any
-    logic acessing the connection about its state */
+    /* closes the socket associated with the connection, no more
+    data is going to be exchanged with it */
     SOCKET_CLOSE(connection->socket_handle);
-    connection->status = STATUS_CLOSED;
 
     /* raises no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 8862e70763e111eacffa60295cab9651d62cb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 050/102] fix: leave the closing of the service socket to its
 connection

---
 src/viriatum/polling/polling_epoll.c  | 8 --------
 src/viriatum/polling/polling_select.c | 3 ---
 2 files changed, 11 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index fca4f7a..5952af1 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -438,10 +438,6 @@ ERROR_CODE _poll_polling_epoll(
     size_t write_index = 0;
     size_t error_index = 0;
 
-    /* retrieves the service associated with the current polling
-    structure in order to be able to modify it */
-    struct service_t *service = polling_epoll->polling->service;
-
     /* prints a debug message (include the poll count) */
     V_DEBUG_F("Entering epoll statement (%lu)\n", polling_epoll->poll_count);
 
@@ -493,10 +489,6 @@ ERROR_CODE _poll_polling_epoll(
             );
         }
 
-        /* closes the service socket, this will disable any
-        more interaction with the service socket */
-        SOCKET_CLOSE(service->service_socket_handle);
-
         /* raises an error */
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 56cec3c..a5aac1a 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -458,9 +458,6 @@ ERROR_CODE _poll_polling_select(
             );
         }
 
-        /* closes the service socket */
-        SOCKET_CLOSE(service->service_socket_handle);
-
         /* raises an error */
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
-- 
2.43.0


From f382ca9c4e344d17d522c424dcadaa6f87b31656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 051/102] fix: grow the list of the connections to be removed

---
 src/viriatum/polling/polling_epoll.c  |  9 ++++++++-
 src/viriatum/polling/polling_epoll.h  |  8 +++++++-
 src/viriatum/polling/polling_select.c |  9 ++++++++-
 src/viriatum/polling/polling_select.h | 27 ++++++++++++++++++++++++---
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 5952af1..64d8b3e 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -44,7 +44,9 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->read_connections_size = 0;
     polling_epoll->write_connections_size = 0;
     polling_epoll->error_connections_size = 0;
+    polling_epoll->remove_connections = NULL;
     polling_epoll->remove_connections_size = 0;
+    polling_epoll->remove_connections_capacity = 0;
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
@@ -64,6 +66,10 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the buffer of the connections to be removed
+    in case there's one (connections were removed) */
+    if(polling_epoll->remove_connections) { FREE(polling_epoll->remove_connections); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -194,8 +200,9 @@ ERROR_CODE unregister_connection_polling_epoll(
     of the logic loop) */
     if(remove_c == TRUE) {
         remove_connection(
-            polling_epoll->remove_connections,
+            &polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
+            &polling_epoll->remove_connections_capacity,
             connection
         );
     }
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..9a08da7 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,7 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -131,6 +131,12 @@ typedef struct polling_epoll_t {
      */
     size_t remove_connections_size;
 
+    /**
+     * The number of connections that fit in
+     * the remove connections buffer.
+     */
+    size_t remove_connections_capacity;
+
    /**
      * The size as items of the sequence of
      * connections that are pending to be read
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index a5aac1a..5bb0dca 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -43,7 +43,9 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
     polling_select->read_connections_size = 0;
     polling_select->write_connections_size = 0;
     polling_select->error_connections_size = 0;
+    polling_select->remove_connections = NULL;
     polling_select->remove_connections_size = 0;
+    polling_select->remove_connections_capacity = 0;
     polling_select->read_outstanding_size = 0;
     polling_select->write_outstanding_size = 0;
 
@@ -65,6 +67,10 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
 }
 
 void delete_polling_select(struct polling_select_t *polling_select) {
+    /* releases the buffer of the connections to be removed
+    in case there's one (connections were removed) */
+    if(polling_select->remove_connections) { FREE(polling_select->remove_connections); }
+
     /* releases the polling select */
     FREE(polling_select);
 }
@@ -179,8 +185,9 @@ ERROR_CODE unregister_connection_polling_select(
     of the logic loop) */
     if(remove_c == TRUE) {
         remove_connection(
-            polling_select->remove_connections,
+            &polling_select->remove_connections,
             &polling_select->remove_connections_size,
+            &polling_select->remove_connections_capacity,
             connection
         );
     }
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index d8124d1..c7d3255 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -98,7 +98,7 @@ typedef struct polling_select_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -152,6 +152,12 @@ typedef struct polling_select_t {
      */
     size_t remove_connections_size;
 
+    /**
+     * The number of connections that fit in
+     * the remove connections buffer.
+     */
+    size_t remove_connections_capacity;
+
     /**
      * The size as items of the sequence of
      * connections that are pending to be read
@@ -244,11 +250,14 @@ ERROR_CODE _unregister_sockets_set_polling_select(
  * @param remove_connections The list of connection for removal.
  * @param remove_connections_size_pointer A pointer to the sisze
  * of the remove connections array.
+ * @param remove_connections_capacity_pointer A pointer to the number
+ * of connections that fit in the array, which grows when required.
  * @param connection The connection to be removed (deleted).
  */
 static __inline void remove_connection(
-    struct connection_t **remove_connections,
+    struct connection_t ***remove_connections_pointer,
     size_t *remove_connections_size_pointer,
+    size_t *remove_connections_capacity_pointer,
     struct connection_t *connection
 ) {
     /* allocates the index counter for the interation and
@@ -258,7 +267,8 @@ static __inline void remove_connection(
 
     /* retrieves the remove connections size value from the
     providade pointer value (indirect value) */
-    unsigned int remove_connections_size = *remove_connections_size_pointer;
+    size_t remove_connections_size = *remove_connections_size_pointer;
+    struct connection_t **remove_connections = *remove_connections_pointer;
 
     /* iterates over all the connections to be removed in order
     to find out if there's a duplicated value */
@@ -271,6 +281,17 @@ static __inline void remove_connection(
         if(current_connection == connection) { return; }
     }
 
+    /* in case the array is full must grow it so that there's room
+    for the connection that is going to be added to it */
+    if(remove_connections_size >= *remove_connections_capacity_pointer) {
+        *remove_connections_capacity_pointer = remove_connections_size + VIRIATUM_MAX_EVENTS;
+        remove_connections = (struct connection_t **) REALLOC(
+            (void *) remove_connections,
+            *remove_connections_capacity_pointer * sizeof(struct connection_t *)
+        );
+        *remove_connections_pointer = remove_connections;
+    }
+
     /* adds the connection to the remove connections and
     then increments the remove connections size */
     remove_connections[remove_connections_size] = connection;
-- 
2.43.0


From 9702fd1a58abe7ee9e7fc60fef801b4b04d65816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 052/102] fix: destroy closed connections even when they cannot
 leave the epoll

---
 src/viriatum/polling/polling_epoll.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 64d8b3e..c85f47e 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -171,6 +171,19 @@ ERROR_CODE unregister_connection_polling_epoll(
     polling control structure */
     struct polling_epoll_t *polling_epoll = (struct polling_epoll_t *) polling->lower;
 
+    /* in case the remove connection flag is set the connection
+    is also added to the list of connections to be removed
+    after the io driven logic part is processed (at the end
+    of the logic loop) */
+    if(remove_c == TRUE) {
+        remove_connection(
+            &polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_size,
+            &polling_epoll->remove_connections_capacity,
+            connection
+        );
+    }
+
     /* removes the associated socket handle (fd) from the epoll
     structure to avoid any leak */
     result_code = epoll_ctl(
@@ -194,19 +207,6 @@ ERROR_CODE unregister_connection_polling_epoll(
         );
     }
 
-    /* in case the remove connection flag is set the connection
-    is also added to the list of connections to be removed
-    after the io driven logic part is processed (at the end
-    of the logic loop) */
-    if(remove_c == TRUE) {
-        remove_connection(
-            &polling_epoll->remove_connections,
-            &polling_epoll->remove_connections_size,
-            &polling_epoll->remove_connections_capacity,
-            connection
-        );
-    }
-
     /* decrements the counter that controls the number of events
     currently in the polling state in the epoll */
     polling_epoll->poll_count--;
-- 
2.43.0


From 709edbe3a3f73aaa6b649381a002eb95c7edbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 053/102] fix: forget the pending operations of closed
 connections

---
 src/viriatum/polling/polling_epoll.c  | 13 +++++++++++++
 src/viriatum/polling/polling_select.c | 13 +++++++++++++
 src/viriatum/polling/polling_select.h | 26 ++++++++++++++++++++++++++
 3 files changed, 52 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index c85f47e..a3aa681 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -182,6 +182,19 @@ ERROR_CODE unregister_connection_polling_epoll(
             &polling_epoll->remove_connections_capacity,
             connection
         );
+
+        /* the connection is going to be destroyed, so it must not be
+        left in the lists of pending operations of the next round */
+        remove_outstanding(
+            polling_epoll->read_outstanding,
+            &polling_epoll->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_epoll->write_outstanding,
+            &polling_epoll->write_outstanding_size,
+            connection
+        );
     }
 
     /* removes the associated socket handle (fd) from the epoll
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 5bb0dca..e312903 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -190,6 +190,19 @@ ERROR_CODE unregister_connection_polling_select(
             &polling_select->remove_connections_capacity,
             connection
         );
+
+        /* the connection is going to be destroyed, so it must not be
+        left in the lists of pending operations of the next round */
+        remove_outstanding(
+            polling_select->read_outstanding,
+            &polling_select->read_outstanding_size,
+            connection
+        );
+        remove_outstanding(
+            polling_select->write_outstanding,
+            &polling_select->write_outstanding_size,
+            connection
+        );
     }
 
     /* raises no error */
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index c7d3255..2da6d87 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -241,6 +241,32 @@ ERROR_CODE _unregister_sockets_set_polling_select(
     SOCKET_SET *sockets_set
 );
 
+/**
+ * Removes every reference to the connection from the provided list of
+ * outstanding connections, the order of the other ones is kept.
+ *
+ * @param outstanding The list of outstanding connections.
+ * @param outstanding_size_pointer A pointer to the size of the list.
+ * @param connection The connection to be removed from the list.
+ */
+static __inline void remove_outstanding(
+    struct connection_t **outstanding,
+    size_t *outstanding_size_pointer,
+    struct connection_t *connection
+) {
+    size_t index;
+    size_t target = 0;
+    size_t outstanding_size = *outstanding_size_pointer;
+
+    for(index = 0; index < outstanding_size; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[target] = outstanding[index];
+        target++;
+    }
+
+    *outstanding_size_pointer = target;
+}
+
 /**
  * Removes a connection and insert it into the remove connections
  * array, in order for it to be removed in next main loop.
-- 
2.43.0


From 14544c0b65e703c1f429c3cccc217c3e4ee26bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 054/102] fix: keep the outstanding connections inside of their
 lists

---
 src/viriatum/polling/polling_epoll.c  | 38 +++++++++++++++++++++++++++
 src/viriatum/polling/polling_epoll.h  |  1 +
 src/viriatum/polling/polling_select.c |  8 ++++++
 3 files changed, 47 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index a3aa681..ae14e38 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -336,6 +336,13 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
         RAISE_NO_ERROR;
     }
 
+    /* in case there's no more room for outstanding connections the events
+    of the connection are requested again to the epoll, the (edge) event
+    is going to be triggered by it as the connection is write valid */
+    if(polling_epoll->write_outstanding_size >= VIRIATUM_MAX_EVENTS) {
+        return _rearm_polling_epoll(polling_epoll, connection);
+    }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
@@ -360,6 +367,12 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
     read operations this request must be ignored */
     if(connection->is_outstanding == TRUE) { RAISE_NO_ERROR; }
 
+    /* in case there's no more room for outstanding connections the events
+    of the connection are requested again to the epoll */
+    if(polling_epoll->read_outstanding_size >= VIRIATUM_MAX_EVENTS) {
+        return _rearm_polling_epoll(polling_epoll, connection);
+    }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
@@ -428,6 +441,31 @@ ERROR_CODE call_polling_epoll(struct polling_t *polling) {
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _rearm_polling_epoll(struct polling_epoll_t *polling_epoll, struct connection_t *connection) {
+    SOCKET_ERROR_CODE result_code;
+    struct epoll_event _event;
+
+    /* requests again the events the connection is interested in
+    so that the ones that are currently active are triggered */
+    _event.events = (connection->read_registered == TRUE ? EPOLLIN : 0) | EPOLLOUT | EPOLLET;
+    _event.data.ptr = (void *) connection;
+    result_code = epoll_ctl(
+        polling_epoll->epoll_fd,
+        EPOLL_CTL_MOD,
+        connection->socket_handle,
+        &_event
+    );
+    if(SOCKET_TEST_ERROR(result_code)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem registering connection epoll"
+        );
+    }
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE _poll_polling_epoll(
     struct polling_epoll_t *polling_epoll,
     struct connection_t **read_connections,
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index 9a08da7..1e3227e 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -169,6 +169,7 @@ ERROR_CODE unregister_write_polling_epoll(struct polling_t *polling, struct conn
 ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct connection_t *connection);
 ERROR_CODE poll_polling_epoll(struct polling_t *polling);
 ERROR_CODE call_polling_epoll(struct polling_t *polling);
+ERROR_CODE _rearm_polling_epoll(struct polling_epoll_t *polling_epoll, struct connection_t *connection);
 ERROR_CODE _poll_polling_epoll(
     struct polling_epoll_t *polling_epoll,
     struct connection_t **read_connections,
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index e312903..b02dc76 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -293,6 +293,10 @@ ERROR_CODE register_write_polling_select(struct polling_t *polling, struct conne
         RAISE_NO_ERROR;
     }
 
+    /* in case there's no more room for outstanding connections there's
+    nothing to be done, the select reports the connection again */
+    if(polling_select->write_outstanding_size >= VIRIATUM_MAX_EVENTS) { RAISE_NO_ERROR; }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_select->write_outstanding[polling_select->write_outstanding_size] = connection;
@@ -338,6 +342,10 @@ ERROR_CODE add_outstanding_polling_select(struct polling_t *polling, struct conn
     read operations this request must be ignored */
     if(connection->is_outstanding == TRUE) { RAISE_NO_ERROR; }
 
+    /* in case there's no more room for outstanding connections there's
+    nothing to be done, the select reports the connection again */
+    if(polling_select->read_outstanding_size >= VIRIATUM_MAX_EVENTS) { RAISE_NO_ERROR; }
+
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
     polling_select->read_outstanding[polling_select->read_outstanding_size] = connection;
-- 
2.43.0


From ad16f1bef5a1ad43acf751ddcd353bee41bf2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 055/102] fix: do not wait for events while there are
 operations outstanding

---
 src/viriatum/polling/polling_epoll.c  | 8 ++++++--
 src/viriatum/polling/polling_select.c | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index ae14e38..f79f011 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -496,6 +496,10 @@ ERROR_CODE _poll_polling_epoll(
     size_t write_index = 0;
     size_t error_index = 0;
 
+    /* in case there are operations still outstanding the poll must not
+    wait for events, as there may be none for such connections */
+    int outstanding = polling_epoll->read_outstanding_size > 0 || polling_epoll->write_outstanding_size > 0;
+
     /* prints a debug message (include the poll count) */
     V_DEBUG_F("Entering epoll statement (%lu)\n", polling_epoll->poll_count);
 
@@ -509,14 +513,14 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        outstanding ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1
+        outstanding ? 0 : -1
     );
 #endif
 
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index b02dc76..9b687d4 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -445,8 +445,12 @@ ERROR_CODE _poll_polling_select(
     polling_select->sockets_read_set_temporary = polling_select->sockets_read_set;
     polling_select->sockets_write_set_temporary = polling_select->sockets_write_set;
 
-    /* copies the select timeout to the select timeout temporary */
+    /* copies the select timeout to the select timeout temporary, in case
+    there are operations still outstanding the select must not wait */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
+    if(polling_select->read_outstanding_size > 0 || polling_select->write_outstanding_size > 0) {
+        polling_select->select_timeout_temporary.tv_sec = 0;
+    }
 
     /* prints a debug message */
     V_DEBUG("Entering select statement\n");
-- 
2.43.0


From 9926c3942d55c89fc7eab1aa5e502ef07df55a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 056/102] fix: use the error set in the select polling

---
 src/viriatum/polling/polling_select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 9b687d4..89129f2 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -135,7 +135,7 @@ ERROR_CODE register_connection_polling_select(struct polling_t *polling, struct
         _register_sockets_set_polling_select(
             polling_select,
             connection->socket_handle,
-            &polling_select->sockets_read_set
+            &polling_select->sockets_error_set
         );
     }
 
@@ -444,6 +444,7 @@ ERROR_CODE _poll_polling_select(
     /* copies the socket sets to the socket sets temporary */
     polling_select->sockets_read_set_temporary = polling_select->sockets_read_set;
     polling_select->sockets_write_set_temporary = polling_select->sockets_write_set;
+    polling_select->sockets_error_set_temporary = polling_select->sockets_error_set;
 
     /* copies the select timeout to the select timeout temporary, in case
     there are operations still outstanding the select must not wait */
-- 
2.43.0


From 30ff6fd7f6eabf4e9a8ae0c67d2707dcacf8c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 057/102] fix: keep socket handles that do not fit out of the
 select sets

---
 src/viriatum/polling/polling_select.c | 28 +++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 89129f2..4cecc79 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -522,6 +522,12 @@ ERROR_CODE _poll_polling_select(
         /* prints a debug message */
         V_DEBUG_F("Testing file for select: %d\n", current_connection->socket_handle);
 
+#ifdef VIRIATUM_PLATFORM_UNIX
+        /* in case the socket handle does not fit in the sockets sets
+        it was not selected, must skip it */
+        if(current_connection->socket_handle >= FD_SETSIZE) { continue; }
+#endif
+
         /* in case the current connection socket handle is set in
         the sockets read ready set */
         if(SOCKET_SET_IS_SET(
@@ -847,6 +853,17 @@ ERROR_CODE _register_sockets_set_polling_select(
     SOCKET_HANDLE socket_handle,
     SOCKET_SET *sockets_set
 ) {
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* a socket handle that does not fit in the sockets sets is not
+    able to be selected, so it must not reach the set */
+    if(socket_handle >= FD_SETSIZE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Socket handle too large for select"
+        );
+    }
+#endif
+
     /* in case the current socket handle is bigger than the polling
     select sockets set highest value */
     if(socket_handle > polling_select->sockets_set_highest) {
@@ -866,6 +883,17 @@ ERROR_CODE _unregister_sockets_set_polling_select(
     SOCKET_HANDLE socket_handle,
     SOCKET_SET *sockets_set
 ) {
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* a socket handle that does not fit in the sockets sets is not
+    able to be selected, so it must not reach the set */
+    if(socket_handle >= FD_SETSIZE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Socket handle too large for select"
+        );
+    }
+#endif
+
     /* removes the socket handle from the sockets set */
     SOCKET_SET_CLEAR(socket_handle, sockets_set);
 
-- 
2.43.0


From 800c18f631074ec3dc08fae8e7676e57e2e7b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 058/102] fix: do not abort on chunked messages

---
 src/viriatum/http/http_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..dd2ea5f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1621,7 +1621,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
-- 
2.43.0


From 3c9de0d7bfb37f1b98faa461680fe618792ca3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 059/102] fix: refuse content lengths and chunk sizes that do
 not fit

---
 src/viriatum/http/http_parser.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index dd2ea5f..aef0dfc 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1387,6 +1387,13 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* verifies that the resulting value may be represented in
+                        the content length (otherwise it's considered invalid) */
+                        if(http_parser->content_length > (INT_MAX - 9) / 10) {
+                            /*SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);*/
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1660,6 +1667,13 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* verifies that the resulting value may be represented in
+                the content length (otherwise it's considered invalid) */
+                if(http_parser->content_length > (INT_MAX - 15) / 16) {
+                    /*SET_ERRNO(HPE_INVALID_CHUNK_SIZE);*/
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From dcfe8a96e65299b2bec45b6e3e24ba14443e5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 060/102] fix: save the parsing state at the end of an upgrade
 request

---
 src/viriatum/http/http_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index aef0dfc..a7c5daa 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1547,8 +1547,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     /* Exit, the rest of the connect is in a different protocol. */
                     if(http_parser->upgrade) {
                         HTTP_CALLBACK(message_complete);
+                        state = NEW_MESSAGE();
+                        parse_count++;
 
-                        return (int) (pointer - data) + 1;
+                        /* breaks the switch */
+                        break;
                     }
 
                     if(http_parser->flags & FLAG_SKIPBODY) {
-- 
2.43.0


From b2cf73f8887b5be326869438bf521288b3332bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 061/102] fix: end the connection when the handling of the
 headers fails

---
 src/viriatum/http/http_parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index a7c5daa..3edda8a 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1538,9 +1538,8 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                                 break;
 
                             default:
-                                http_parser->state = state;
                                 /*SET_ERRNO(HPE_CB_headers_complete);*/
-                                return (int) (pointer - data); /* Error */
+                                goto error;
                         }
                     }
 
-- 
2.43.0


From 8ac9a41fba883258d56e12ed8dba10d0d319fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:53 +0000
Subject: [PATCH 062/102] fix: report no processed bytes for an empty set of
 data

---
 src/viriatum/http/http_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 3edda8a..4270b41 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -156,8 +156,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
             default:
                 /* SET_ERRNO(HPE_INVALID_EOF_STATE);*/
 
-                /* returns invalid (error) */
-                return 1;
+                /* returns immediately as no data was processed,
+                the remaining of the message is still pending */
+                return 0;
         }
     }
 
-- 
2.43.0


From 19e1814b403ba9e86bacba31879b26137150f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:53 +0000
Subject: [PATCH 063/102] fix: initialise the matching index of the parser

---
 src/viriatum/http/http_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 4270b41..5d65737 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -61,6 +61,7 @@ void create_http_parser(struct http_parser_t **http_parser_pointer, char request
     http_parser->flags = 6;
     http_parser->state = request ? STATE_START_REQ : STATE_START_RES;
     http_parser->header_state = 0;
+    http_parser->index = 0;
     http_parser->read_count = 0;
     http_parser->content_length = -1;
     http_parser->http_major = 0;
-- 
2.43.0


From 995f9c9aa003196f29f1626207321c9eba388b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 064/102] fix: keep reading bodies that end with the connection

---
 src/viriatum/http/http_parser.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 5d65737..d4e2948 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1758,12 +1758,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From 25857bf4dbbfdba15413ca8f87d17499f19fff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 065/102] fix: move the marks of the parser together with its
 buffer

---
 src/viriatum/stream/stream_http.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..39fc7f0 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -186,6 +186,11 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     buffer position to be used in writing (initial position) */
     unsigned char *_buffer;
 
+    /* allocates the references to be used in the update of the
+    marks of the parser when the buffer is moved */
+    unsigned char *base;
+    struct http_parser_t *http_parser;
+
     /* allocates the reference to the pointer to the position
     in the connection buffer to continue the parsing */
     unsigned char *_read;
@@ -224,10 +229,18 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         size_offset = http_connection->buffer_offset + buffer_size;
         size_length = http_connection->buffer_size + content_length;
         http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
-        http_connection->buffer = REALLOC(
-            (void *) http_connection->buffer,
-            http_connection->buffer_size
-        );
+        base = http_connection->buffer;
+        _buffer = (unsigned char *) MALLOC(http_connection->buffer_size);
+        memcpy(_buffer, base, http_connection->buffer_offset);
+        http_connection->buffer = _buffer;
+
+        /* moves the marks that are pending in the parser to the same
+        positions of the new buffer and then releases the previous one */
+        http_parser = http_connection->http_parser;
+        if(http_parser->header_field_mark) { http_parser->header_field_mark = _buffer + (http_parser->header_field_mark - base); }
+        if(http_parser->header_value_mark) { http_parser->header_value_mark = _buffer + (http_parser->header_value_mark - base); }
+        if(http_parser->url_mark) { http_parser->url_mark = _buffer + (http_parser->url_mark - base); }
+        FREE(base);
     }
 
     /* retrieves the pointer reference to the current position in the
-- 
2.43.0


From 20868ef1aaaeb5264bce0156b3df3f16e8f6b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 066/102] fix: stop handling the data of a connection that was
 closed meanwhile

---
 src/viriatum/stream/stream_http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 39fc7f0..6de9025 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -286,6 +286,10 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
             _read_size
         );
 
+        /* in case the connection was closed while the data was handled its
+        structures are no longer available, must return immediately */
+        if(connection->status == STATUS_CLOSED) { break; }
+
         /* in case the processed size value is set to an invalid value
         an error has occurred and proper handling must occur */
         if(processed_size == -1) {
-- 
2.43.0


From c3034476e33df20634a0e21a040c2090d6867a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 067/102] fix: reset the parsing of a connection between
 requests

---
 src/viriatum/stream/stream_http.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 6de9025..1d70907 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -305,19 +305,12 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
 
         /* in case the current state in the HTTP parser is the
         start state, the message is considered to be completly
-        parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
+        parsed (new message may come after), note that the values
+        of the message are kept as they're used for its response */
+        if(http_connection->http_parser->state == STATE_START_REQ) {
             /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
             http_connection->http_parser->header_state = 0;
             http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
             http_connection->http_parser->upgrade = 0;
             http_connection->http_parser->_content_length = 0;
 
@@ -327,10 +320,9 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
             http_connection->http_parser->url_mark = 0;
 
             /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
+            end of its data it's time to reset the buffer (no more data to be
+            processed and no message that may still be using it) */
+            if(!http_connection->lock && http_connection->read_offset == http_connection->buffer_offset) {
                 /* releases the current HTTP connection buffer and then
                 unsets the buffer from the connection and updates the size
                 of it to the initial empty value (buffer reset) */
@@ -344,7 +336,7 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
 
         /* in case all the data has been read from the connection
         buffer must break the loop */
-        if(http_connection->read_offset == http_connection->buffer_size) { break; }
+        if(http_connection->read_offset == http_connection->buffer_offset) { break; }
 
         /* in case all the remaining data has been processed
         no need to process more HTTP data (breaks the loop) */
-- 
2.43.0


From dcd4067c61002039ae9c9154ad13f191014c1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 068/102] fix: close the client connection when its data cannot
 be parsed

---
 src/viriatum/stream/stream_httpc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_httpc.c b/src/viriatum/stream/stream_httpc.c
index 0e235be..1baeed3 100644
--- a/src/viriatum/stream/stream_httpc.c
+++ b/src/viriatum/stream/stream_httpc.c
@@ -145,19 +145,27 @@ ERROR_CODE delete_http_client_parameters(struct http_client_parameters_t *http_c
 ERROR_CODE data_handler_stream_http_client(struct io_connection_t *io_connection, unsigned char *buffer, size_t buffer_size) {
     /* retrieves the HTTP client connection as the lower
     part (payload) of the io connection */
+    struct connection_t *connection = io_connection->connection;
     struct http_client_connection_t *http_client_connection =\
         (struct http_client_connection_t *) io_connection->lower;
 
+    /* allocates space for the number of processed bytes */
+    int processed_size;
+
     /* process the HTTP data for the HTTP parser, this should be
     a partial processing and some data may remain unprocessed (in
     case there are multiple HTTP requests) */
-    process_data_http_parser(
+    processed_size = process_data_http_parser(
         http_client_connection->http_parser,
         http_client_connection->http_settings,
         buffer,
         buffer_size
     );
 
+    /* in case the received data could not be parsed the connection
+    is of no more use and must be closed */
+    if(processed_size == -1) { connection->close_connection(connection); }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From 4871028cab136484fb158e9bbf69e26c73076ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 069/102] fix: ignore tracker responses that cannot be decoded

---
 src/viriatum/stream/stream_httpc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_httpc.c b/src/viriatum/stream/stream_httpc.c
index 1baeed3..4c3962e 100644
--- a/src/viriatum/stream/stream_httpc.c
+++ b/src/viriatum/stream/stream_httpc.c
@@ -35,9 +35,12 @@
 /* ----------------------------------------- */
 
 ERROR_CODE body_callback_handler_client(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    struct type_t *type;
+    struct type_t *type = NULL;
 
+    /* decodes the received value, in case it's not possible to do
+    it there's nothing to be shown */
     decode_bencoding((unsigned char *) data, data_size, &type);
+    if(type == NULL) { RAISE_NO_ERROR; }
     print_type(type);
     free_type(type);
 
-- 
2.43.0


From c26b4323ee2078e38d292c51717a6a908cf5f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:36 +0000
Subject: [PATCH 070/102] fix: keep the data of the backend while it is being
 parsed

---
 src/viriatum/handlers/handler_proxy.c | 43 +++++++++++++++++++++++++--
 src/viriatum/handlers/handler_proxy.h | 11 +++++++
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 5da723c..d22435e 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -99,6 +99,8 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
+    handler_proxy_context->in_buffer = NULL;
+    handler_proxy_context->in_buffer_size = 0;
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
@@ -138,6 +140,10 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
 
+    /* in case there's data of the backend that is still kept it must
+    be properly released to avoid memory leaks */
+    if(handler_proxy_context->in_buffer) { FREE(handler_proxy_context->in_buffer); }
+
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
     if(handler_proxy_context->http_settings) {
@@ -673,6 +679,9 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     /* allocates space for the proxy context that may be retrieved
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
+    struct http_parser_t *http_parser;
+    unsigned char *in_buffer;
+    unsigned char *base;
     int processed_size;
 
     /* retrieves the top level connection object from the io connection
@@ -691,6 +700,23 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    /* adds the received data to the one that is kept from the previous reads and
+    moves the marks of the parser to it, a header may be split over reads and the
+    provided buffer is only valid during the current one */
+    http_parser = handler_proxy_context->http_parser;
+    base = handler_proxy_context->in_buffer;
+    in_buffer = (unsigned char *) MALLOC(handler_proxy_context->in_buffer_size + buffer_size);
+    if(base != NULL) {
+        memcpy(in_buffer, base, handler_proxy_context->in_buffer_size);
+        if(http_parser->header_field_mark) { http_parser->header_field_mark = in_buffer + (http_parser->header_field_mark - base); }
+        if(http_parser->header_value_mark) { http_parser->header_value_mark = in_buffer + (http_parser->header_value_mark - base); }
+        if(http_parser->url_mark) { http_parser->url_mark = in_buffer + (http_parser->url_mark - base); }
+        FREE(base);
+    }
+    memcpy(in_buffer + handler_proxy_context->in_buffer_size, buffer, buffer_size);
+    handler_proxy_context->in_buffer = in_buffer;
+    handler_proxy_context->in_buffer_size += buffer_size;
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
     series of callbacks for the various stages of the parsing, then returns the control
@@ -698,13 +724,26 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     processed_size = process_data_http_parser(
         handler_proxy_context->http_parser,
         handler_proxy_context->http_settings,
-        buffer,
+        in_buffer + handler_proxy_context->in_buffer_size - buffer_size,
         buffer_size
     );
 
     /* in case the data of the backend could not be parsed there's no way
     to keep using the connection, it must be closed */
-    if(processed_size == -1) { connection->close_connection(connection); }
+    if(processed_size == -1) {
+        connection->close_connection(connection);
+        RAISE_NO_ERROR;
+    }
+
+    /* in case there's nothing pending in the parser the data that was
+    received is no longer required and may be released */
+    if(http_parser->header_field_mark == NULL && http_parser->header_value_mark == NULL &&\
+        http_parser->url_mark == NULL) {
+        FREE(handler_proxy_context->in_buffer);
+        handler_proxy_context->in_buffer = NULL;
+        handler_proxy_context->in_buffer_size = 0;
+    }
+
     RAISE_NO_ERROR;
 }
 
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 96721a4..3019fd8 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -155,6 +155,17 @@ typedef struct handler_proxy_context_t {
      */
     size_t out_buffer_max_size;
 
+    /**
+     * The data received from the backend that is still being parsed, it's
+     * kept across reads while the parser has marks set in it.
+     */
+    unsigned char *in_buffer;
+
+    /**
+     * The size of the data of the backend that is currently kept.
+     */
+    size_t in_buffer_size;
+
     /**
      * The current service connection that "communicates" with the client
      * of the proxy service. This connection may be used to return the data
-- 
2.43.0


From fb2e7ac673287ff58039206abca06c994e495de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:49 +0000
Subject: [PATCH 071/102] fix: hand the proxy buffers over to the connections
 they are written to

---
 src/viriatum/handlers/handler_proxy.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d22435e..6c28c3c 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -445,8 +445,14 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             handler_proxy_context->buffer_size,
             NULL,
             NULL,
-            FALSE
+            TRUE
         );
+
+        /* the ownership of the buffer is now of the connection and so it
+        must not be used again by the context */
+        handler_proxy_context->buffer = NULL;
+        handler_proxy_context->buffer_size = 0;
+        handler_proxy_context->buffer_max_size = 0;
     }
 
     /* raises no error as no problem has arised from the
@@ -926,7 +932,7 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
         handler_proxy_context->out_buffer_size,
         _pending_handler_proxy,
         (void *) handler_proxy_context,
-        FALSE
+        TRUE
     );
 
     /* adds the size of the current data to the counter of bytes
@@ -934,6 +940,12 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += handler_proxy_context->out_buffer_size;
+
+    /* the ownership of the output buffer is now of the connection and so
+    it must not be used again by the context */
+    handler_proxy_context->out_buffer = NULL;
+    handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->out_buffer_max_size = 0;
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
-- 
2.43.0


From 7ba942c916af083906af92dd56eca0e7ffb72956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 072/102] fix: define the number of workers when no source
 gives it

---
 src/viriatum/system/service.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 7921906..74a5897 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -119,6 +119,7 @@ void create_service_options(struct service_options_t **service_options_pointer)
     service_options->ssl_key = NULL;
     service_options->handler_name = NULL;
     service_options->local = 0;
+    service_options->workers = 0;
     service_options->default_index = 0;
     service_options->use_template = 0;
     service_options->default_virtual_host = NULL;
-- 
2.43.0


From 0d9ee8d34b52abbd1ce8e9d512d1a242915522d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 073/102] fix: keep the last value of a configuration file
 without final new line

---
 src/viriatum_commons/ini/ini.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..681a839 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -178,6 +178,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* in case the file ends without a new line the value that
+    is still open must also be set in the configuration */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
     the configuration file (avoids leaks) */
     FREE(file_buffer);
-- 
2.43.0


From 02e9d182e67bad9d4814ba141d0dcc5dd083e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 074/102] fix: define the key and the value of every command
 line argument

---
 src/viriatum_commons/util/arguments_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..8ce14f5 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -189,6 +189,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
 
+    /* starts both the key and the value as empty so that they
+    are defined even if the argument does not contain them */
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
+
     /* iterates over all the characters present in
     the argument string to parse the argument */
     for(index = 0; index < argument_size; index++) {
-- 
2.43.0


From ee49d3522fa6945b78dbfb12f48b60c8b0fb8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 075/102] fix: refuse command line arguments that do not fit

---
 src/viriatum_commons/util/arguments_util.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index 8ce14f5..38bde29 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -243,6 +243,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
                     /* sets the argument to type key and value */
                     argument->type = VALUE_ARGUMENT;
 
+                    /* verifies that the key fits in the argument */
+                    if(index - mark >= sizeof(argument->key)) {
+                        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option name too long");
+                    }
+
                     /* copies the key value into the appropriate variable
                     in the argument */
                     memcpy(argument->key, argument_value + mark, index - mark);
@@ -267,6 +272,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     switch(state) {
         case ARGUMENT_SECOND:
         case ARGUMENT_KEY:
+            /* verifies that the key fits in the argument */
+            if(index - mark >= sizeof(argument->key)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option name too long");
+            }
+
             /* copies the key value into the appropriate variable
             in the argument */
             memcpy(argument->key, argument_value + mark, index - mark);
@@ -276,6 +286,11 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
             break;
 
         case ARGUMENT_VALUE:
+            /* verifies that the value fits in the argument */
+            if(index - mark >= sizeof(argument->value)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option value too long");
+            }
+
             /* copies the value value into the appropriate variable
             in the argument */
             memcpy(argument->value, argument_value + mark, index - mark);
-- 
2.43.0


From 0a45e08a0d242d90c85bb51246ab424e087ca28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 076/102] fix: refuse configuration names that do not fit

---
 src/viriatum_commons/ini/ini.c | 8 ++++++++
 src/viriatum_commons/ini/ini.h | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index 681a839..c019c3e 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -83,6 +83,8 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     /* sets the configuration reference in the ini handler
     so that it may be updatd and then sets the handler in
     the ini engine instance to be used for parsing */
+    ini_handler_s.section[0] = '\0';
+    ini_handler_s.key[0] = '\0';
     ini_handler_s.configuration = configuration;
     ini_engine_s.context = ini_handler;
 
@@ -197,6 +199,9 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size >= sizeof(ini_handler->section)) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Section name too long");
+    }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -214,6 +219,9 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(size >= sizeof(ini_handler->key)) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Key name too long");
+    }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
diff --git a/src/viriatum_commons/ini/ini.h b/src/viriatum_commons/ini/ini.h
index a6121b6..bf54f26 100644
--- a/src/viriatum_commons/ini/ini.h
+++ b/src/viriatum_commons/ini/ini.h
@@ -48,6 +48,7 @@
     do {\
         if(ini_settings->on_##FOR) {\
             if(ini_settings->on_##FOR(ini_engine) != 0) {\
+                FREE(file_buffer);\
                 RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem handling callback"); \
             }\
         }\
@@ -60,6 +61,7 @@
         if(FOR##_mark) {\
             if(ini_settings->on_##FOR) {\
                 if(ini_settings->on_##FOR(ini_engine, FOR##_mark, pointer - FOR##_mark - N) != 0) {\
+                    FREE(file_buffer);\
                     RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem handling callback"); \
                 }\
             }\
-- 
2.43.0


From 7b6c5560a5ed77604a21972bcd3e293ee70a6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 077/102] fix: keep the trailing space removal inside empty
 strings

---
 src/viriatum_commons/util/string_util.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..6e5a12c 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -196,16 +196,7 @@ static __inline size_t atoa(char *string_value, char *buffer, size_t elements, s
 }
 
 static __inline size_t trailing_size(char *buffer, size_t size) {
-    char byte;
-    char *_pointer = buffer + size - 1;
-
-    while(TRUE) {
-        byte = *_pointer;
-        if(byte != ' ') { break; }
-        _pointer--;
-        size--;
-        if(size == 0) { break; }
-    }
+    while(size > 0 && buffer[size - 1] == ' ') { size--; }
 
     return size;
 }
-- 
2.43.0


From 79897a3e89e3d354539723d66a7ed4ae2f7cf923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:51 +0000
Subject: [PATCH 078/102] fix: refuse template parameters that do not fit

---
 src/viriatum_commons/template/engine.h  |  4 ++++
 src/viriatum_commons/template/handler.c | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/template/engine.h b/src/viriatum_commons/template/engine.h
index 1afdc2d..38e1321 100644
--- a/src/viriatum_commons/template/engine.h
+++ b/src/viriatum_commons/template/engine.h
@@ -43,6 +43,8 @@
     do {\
         if(template_settings->on_##FOR) {\
             if(template_settings->on_##FOR(template_engine) != 0) {\
+                fclose(file);\
+                FREE(file_buffer);\
                 RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem handling callback"); \
             }\
         }\
@@ -55,6 +57,8 @@
         if(FOR##_mark) {\
             if(template_settings->on_##FOR) {\
                 if(template_settings->on_##FOR(template_engine, FOR##_mark, pointer - FOR##_mark - N) != 0) {\
+                    fclose(file);\
+                    FREE(file_buffer);\
                     RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem handling callback"); \
                 }\
             }\
diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..0aa631d 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -878,6 +878,10 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
         create_hash_map(&temporary_node->parameters_map, 0);
     }
 
+    if(size >= sizeof(template_parameter->name)) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Parameter name too long");
+    }
+
     /* creates the template parameter, sets it as the temporary parameter
     in the temporary node and adds it to the list of parameters */
     create_template_parameter(&template_parameter);
@@ -903,13 +907,17 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_node_t *temporary_node = template_handler->temporary_node;
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
+    if(size >= sizeof(temporary_parameter->raw_value)) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Parameter value too long");
+    }
+
     /* sets the raw value in the template parameter throught a memory copy */
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
 
     /* in case the first character of the raw value is
     a start string character the value must be a string */
-    if(temporary_parameter->raw_value[0] == '"') {
+    if(size > 1 && temporary_parameter->raw_value[0] == '"') {
         memcpy(temporary_parameter->string_value, pointer + 1, size - 2);
         temporary_parameter->string_value[size - 2] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_STRING;
@@ -922,6 +930,9 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     }
     /* othwerwise it must be a (variable) reference value */
     else {
+        if(size >= sizeof(temporary_parameter->reference_value)) {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Parameter reference too long");
+        }
         memcpy(temporary_parameter->reference_value, pointer, size);
         temporary_parameter->reference_value[size] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_REFERENCE;
-- 
2.43.0


From 1d4915a7fde7af4e18305286458a9755f24fd743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:27 +0000
Subject: [PATCH 079/102] fix: stop reading a template at the size of its
 buffer

---
 src/viriatum_commons/template/engine.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..57fac8a 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -413,9 +413,10 @@ char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     char current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
-        /* returns invalid */
-        return 0;
+    if(*size == 0) {
+        /* returns the end of file, there's no more space
+        reserved in the buffer for new characters */
+        return EOF;
     }
 
     /* retrieves the current character
-- 
2.43.0


From 0d1d000ee2328914c3942d0cd1b2db6c60039fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:28 +0000
Subject: [PATCH 080/102] fix: check the parts of a url before copying them

---
 src/viriatum_commons/formats/url.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..c541941 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -247,6 +247,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->port_s.buffer != NULL) {
+        if(url_s->port_s.length >= sizeof(buffer)) { goto error; }
         memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
         buffer[url_s->port_s.length] = '\0';
 
@@ -271,6 +272,10 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
     to be used as basis for the construction of the static one */
     struct url_t _url_s;
 
+    /* resets the static structure so that it's always defined
+    even in case the parsing of the url fails */
+    memset(url_s, 0, sizeof(struct url_static_t));
+
     error = parse_url(url, url_size, &_url_s);
     if(error) {
         RAISE_ERROR_M(
@@ -279,7 +284,20 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
         );
     }
 
-    memset(url_s, 0, sizeof(struct url_static_t));
+    /* verifies that every part of the url fits in the buffer
+    of the static structure that is going to hold it */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme)
+        || _url_s.username.length >= sizeof(url_s->username)
+        || _url_s.password.length >= sizeof(url_s->password)
+        || _url_s.host.length >= sizeof(url_s->host)
+        || _url_s.path.length >= sizeof(url_s->path)
+        || _url_s.query.length >= sizeof(url_s->query)
+        || _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "The url is too long"
+        );
+    }
 
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
@@ -298,24 +316,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
-- 
2.43.0


From 124e1d84b06be5b0dd3c6e1ffa708d7e516e76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:28 +0000
Subject: [PATCH 081/102] fix: skip directory entries whose full name does not
 fit

---
 src/viriatum_commons/io/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..9afa725 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -816,6 +816,12 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
             break;
         }
 
+        /* in case the full name of the entity (including the separator
+        and the end of string) does not fit in the buffer ignores it */
+        if(strlen(file_path) + strlen(entity->d_name) + 2 > sizeof(entry_full_name)) {
+            continue;
+        }
+
         /* allocates a new entry value and resets the
         necessary structures (time) */
         entry = MALLOC(sizeof(struct file_t));
-- 
2.43.0


From 3144377fb43ce427ea4309e946b1ba20b2dedab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:28 +0000
Subject: [PATCH 082/102] fix: check the length of file extensions and of the
 ip6 host

---
 src/viriatum/system/service.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 74a5897..0645542 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -671,6 +671,12 @@ ERROR_CODE start_service(struct service_t *service) {
         /* copies the ip6 address to a temporary buffer and then
         uses the buffer to trim the string remogin the first and
         last chracters from it (ip6 normal representation) */
+        if(strlen((char *) service_options->address6) >= sizeof(address6)) {
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "The ip6 host is too long"
+            );
+        }
         STRCPY((char *) address6, 64, (char *) service_options->address6);
         _address6 = trim(address6);
 
@@ -2313,6 +2319,7 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+    if(extension_s >= sizeof(extension_l)) { return NULL; }
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
-- 
2.43.0


From c8e2fd18a69c1fa7edb00abfc69d853b7f33c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 083/102] fix: release the file and the buffer of a short read

---
 src/viriatum_commons/io/file.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 9afa725..8d51ca6 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -101,6 +101,8 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        fclose(file);
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
@@ -131,6 +133,12 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
+    if(file == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem opening file"
+        );
+    }
     fwrite(buffer, sizeof(char), buffer_size, file);
     fclose(file);
 
-- 
2.43.0


From 665aee47dcb31cad2597da695d16ff8e0bf803a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 084/102] fix: release the encoded buffer of a bencoding file

---
 src/viriatum_commons/encoding/bencoding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index b2b5334..31882ee 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -146,6 +146,7 @@ ERROR_CODE encode_bencoding_file(char *file_path, struct type_t *type) {
     and then uses the resulting buffer to write it to the file */
     encode_bencoding(type, &encoded_buffer, &encoded_buffer_length);
     write_file(file_path, encoded_buffer, encoded_buffer_length);
+    FREE(encoded_buffer);
 
     /* raises no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 7195caa81b472db6c387088f59edccc30e44d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 085/102] fix: define the type of a bencoding value outside of
 any sequence

---
 src/viriatum_commons/encoding/bencoding.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 31882ee..696e11e 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -513,9 +513,14 @@ ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_
         }
     }
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
+    /* otherwise the integer is outside of any sequence and becomes the
+    top type (base type) in case there is none defined already */
+    else if(bencoding_handler->top == NULL) {
+        _integer = atoi(integer);
+        create_type(&type, INTEGER_TYPE);
+        *type = integer_type(_integer);
+        bencoding_handler->top = type;
+    }
 
     /* releases the memory associated with the intger string value
     in order to avoid memory leaks */
@@ -603,9 +608,15 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
         }
     }
 
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
+    /* otherwise the string is outside of any sequence and becomes the
+    top type (base type) in case there is none defined already */
+    else if(bencoding_handler->top == NULL) {
+        create_type(&type, STRING_TYPE);
+        *type = buffer_type(string, size);
+        bencoding_handler->top = type;
+    }
+    /* otherwise there is no place for it, releases its memory */
+    else { FREE(string); }
 
     /* raises no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From 16f0f31948141612379cc7c8d1a81393bbf7c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 086/102] fix: create a single map for every bencoding
 dictionary

---
 src/viriatum_commons/encoding/bencoding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index 696e11e..d15922a 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -679,6 +679,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, MAP_TYPE);
             *type = map_type(hash_map);
 
+            /* breaks the switch */
+            break;
+
         case SORT_MAP_TYPE:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -686,6 +689,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, SORT_MAP_TYPE);
             *type = sort_map_type(sort_map);
 
+            /* breaks the switch */
+            break;
+
         default:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
-- 
2.43.0


From c9ef1fcd67da09548e696dbb9e685afdc97a76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 087/102] fix: release the printed copy of the torrent data

---
 src/viriatum/stream/stream_torrent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/stream/stream_torrent.c b/src/viriatum/stream/stream_torrent.c
index 8f48d5f..5ff50db 100644
--- a/src/viriatum/stream/stream_torrent.c
+++ b/src/viriatum/stream/stream_torrent.c
@@ -69,6 +69,7 @@ ERROR_CODE data_handler_stream_torrent(struct io_connection_t *io_connection, un
     _buffer[buffer_size] = '\0';
 
     printf("'%s'", _buffer);
+    FREE(_buffer);
 
     /* raises no error */
     RAISE_NO_ERROR;
-- 
2.43.0


From fba6609d312d296f981d5071cb26db3a81e2d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 088/102] fix: release the tracker parameters when the torrent
 cannot be read

---
 src/viriatum/system/torrent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index 0961794..b564c6c 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -94,6 +94,7 @@ ERROR_CODE _create_tracker_connection(
     thre's an error propagates it to the calling function */
     error = decode_bencoding_file(file_path, &type);
     if(error) {
+        delete_http_client_parameters(parameters);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading torrent file"
-- 
2.43.0


From ce78fdb8139ce2b00f0c153a5fe85baf299e29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:47 +0000
Subject: [PATCH 089/102] fix: close the sockets of the service once and on
 every failure

---
 src/viriatum/system/service.c | 43 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 0645542..014cd45 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -43,8 +43,8 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
     service->program_name = program_name;
     service->status = STATUS_CLOSED;
     service->configuration = NULL;
-    service->service_socket_handle = 0;
-    service->service_socket6_handle = 0;
+    service->service_socket_handle = -1;
+    service->service_socket6_handle = -1;
     service->http_handler = NULL;
     service->register_signals = NULL;
     service->get_uptime = _get_uptime_service;
@@ -78,11 +78,9 @@ void create_service(struct service_t **service_pointer, unsigned char *name, uns
 }
 
 void delete_service(struct service_t *service) {
-    /* in case the service socket handle is defined and set
-    must close the it using the safe approach (gracefully) */
-    if(service->service_socket_handle) {
-        SOCKET_CLOSE(service->service_socket_handle);
-    }
+    /* the socket handles are not closed here, they are closed either by
+    the failing start of the service or by the closing of the connections
+    of the service that own them */
 
     /* in case the service configuration is defined and set
     must close the it using the safe approach (gracefully) */
@@ -471,6 +469,15 @@ ERROR_CODE create_workers(struct service_t *service) { RAISE_NO_ERROR; }
 ERROR_CODE join_workers(struct service_t *service) { RAISE_NO_ERROR; }
 #endif
 
+static void _close_sockets_service(struct service_t *service) {
+    /* closes the socket handles that have already been created, this is
+    meant for the failures before they are handed to their connections */
+    if(service->service_socket_handle >= 0) { SOCKET_CLOSE(service->service_socket_handle); }
+    if(service->service_socket6_handle >= 0) { SOCKET_CLOSE(service->service_socket6_handle); }
+    service->service_socket_handle = -1;
+    service->service_socket6_handle = -1;
+}
+
 ERROR_CODE start_service(struct service_t *service) {
 #ifdef VIRIATUM_IP6
     /* allocates the socket address structure for the ip6
@@ -627,7 +634,7 @@ ERROR_CODE start_service(struct service_t *service) {
     if(SOCKET_TEST_ERROR(socket_result)) {
         SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
         V_ERROR_F("Problem setting socket option: %d\n", option_error_code);
-        SOCKET_CLOSE(service->service_socket_handle);
+        _close_sockets_service(service);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem setting socket option"
@@ -660,6 +667,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_TEST_ERROR(socket_result)) {
             SOCKET_ERROR_CODE error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem getting ip6 address information: %d\n", error_code);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem getting ip6 address information"
@@ -672,6 +680,7 @@ ERROR_CODE start_service(struct service_t *service) {
         uses the buffer to trim the string remogin the first and
         last chracters from it (ip6 normal representation) */
         if(strlen((char *) service_options->address6) >= sizeof(address6)) {
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "The ip6 host is too long"
@@ -696,6 +705,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
             SOCKET_ERROR_CODE error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem getting ip6 address information: %d\n", error_code);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem getting ip6 address information"
@@ -714,6 +724,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_TEST_ERROR(service->service_socket6_handle)) {
             SOCKET_ERROR_CODE creating_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem creating ip6 socket: %d\n", creating_error_code);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem creating ip6 socket"
@@ -747,7 +758,7 @@ ERROR_CODE start_service(struct service_t *service) {
 #else
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
-            SOCKET_CLOSE(service->service_socket6_handle);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -770,7 +781,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if(SOCKET_TEST_ERROR(socket_result)) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
-            SOCKET_CLOSE(service->service_socket6_handle);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -815,7 +826,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* tests if there was an error loading the certificate file and
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
-            SOCKET_CLOSE(service->service_socket_handle);
+            _close_sockets_service(service);
             V_ERROR("Problem loading the ssl certificate file (*.crt)\n");
             V_WARNING_F("Using certificate file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -845,7 +856,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* tests if there was an error loading private key file and
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
-            SOCKET_CLOSE(service->service_socket_handle);
+            _close_sockets_service(service);
             V_ERROR("Problem loading the ssl key file (*.key)\n");
             V_WARNING_F("Using key file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -868,7 +879,7 @@ ERROR_CODE start_service(struct service_t *service) {
 
         /* closes the service socket and raises an error indicating
         the problem binding the socket */
-        SOCKET_CLOSE(service->service_socket_handle);
+        _close_sockets_service(service);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem binding socket"
@@ -887,7 +898,7 @@ ERROR_CODE start_service(struct service_t *service) {
 
         /* closes the service socket and raises an error indicating
         the problem listening the socket */
-        SOCKET_CLOSE(service->service_socket_handle);
+        _close_sockets_service(service);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem listening socket"
@@ -925,7 +936,7 @@ ERROR_CODE start_service(struct service_t *service) {
 
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
-            SOCKET_CLOSE(service->service_socket_handle);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem binding socket"
@@ -944,7 +955,7 @@ ERROR_CODE start_service(struct service_t *service) {
 
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
-            SOCKET_CLOSE(service->service_socket_handle);
+            _close_sockets_service(service);
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem listening socket"
-- 
2.43.0


From 50c8b92e633c17d76a04a6fba2e134c3b571c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 090/102] fix: ignore an end without a sequence in bencoding

---
 src/viriatum_commons/encoding/bencoding.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index d15922a..a95b245 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -740,6 +740,10 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     peek_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &type);
     bencoding_handler->sequence = type;
 
+    /* in case there is no sequence to be closed the end found has no
+    matching start and so there's nothing to be done */
+    if(sequence == NULL) { RAISE_NO_ERROR; }
+
     /* in case the current (previous) sequence is a map, must do some
     garbage collection to avoid leeks */
     if(sequence->type == MAP_TYPE || sequence->type == SORT_MAP_TYPE) {
-- 
2.43.0


From 94e5382f86ee5815614bb279645d99107431c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 091/102] fix: do not read the error handler of a missing
 module

---
 src/viriatum/module/loading.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/module/loading.h b/src/viriatum/module/loading.h
index 8a5c090..299792c 100644
--- a/src/viriatum/module/loading.h
+++ b/src/viriatum/module/loading.h
@@ -269,7 +269,7 @@ static __inline unsigned char *get_error_message_module(struct module_t *module)
 
     /* in case the module error handler
     is not defined */
-    if(module->error == NULL) {
+    else if(module->error == NULL) {
         /* sets invalid error message */
         error_message = (unsigned char *) "No error handler defined";
     }
-- 
2.43.0


From 7e32ddbbe4013c45596bb43ccb9f69dd28d702e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 092/102] fix: raise an error when the ssl context is not
 created

---
 src/viriatum/system/service.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 014cd45..e7604ea 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -803,6 +803,14 @@ ERROR_CODE start_service(struct service_t *service) {
         /* creates the new ssl context and updates the context with the
         correct certificate file and (private) key file */
         service->ssl_context = SSL_CTX_new(SSLv23_server_method());
+        if(service->ssl_context == NULL) {
+            _close_sockets_service(service);
+            V_ERROR("Problem creating the ssl context\n");
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "Problem creating ssl context"
+            );
+        }
         SSL_CTX_set_options(service->ssl_context, SSL_OP_SINGLE_DH_USE);
 
         /* resolves the configuration file from the ssl certificate defaulting to
-- 
2.43.0


From bf2517a025b94adc3aab89b35127802101422c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 093/102] fix: keep the previous node while walking to an index

---
 src/viriatum_commons/structures/linked_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..d9cb07a 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -204,8 +204,8 @@ void append_index_linked_list(
     pointers to the required slot for insertion, these are the nodes that
     are going to be updated for the insertion operation */
     for(_index = 0; _index < index; _index++) {
+        previous = next;
         next = next->next;
-        previous = next->previous;
     }
 
     /* in case either the current index is the first one or the last one
-- 
2.43.0


From d9cb618f226e4dde06b836306f686f5b78b593cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 094/102] fix: do not use the description of a file that can't
 be inspected

---
 src/viriatum_commons/io/file.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 8d51ca6..36fc925 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -744,7 +744,13 @@ ERROR_CODE get_write_time_file(char *file_path, struct date_time_t *date_time) {
     struct stat file_stat;
     struct tm time;
 
-    stat(file_path, &file_stat);
+    /* in case the file can't be inspected there's no time for it */
+    if(stat(file_path, &file_stat) != 0) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem inspecting file"
+        );
+    }
 
     gmtime_r((const time_t *) &file_stat.st_mtime, &time);
 
@@ -864,8 +870,9 @@ ERROR_CODE list_directory_file(char *file_path, struct linked_list_t *entries) {
         the entry stat structure and then uses it to retrieve its size
         and it's last write time */
         join_path_file(file_path, entity->d_name, entry_full_name);
-        stat(entry_full_name, &entry_stat);
-        entry->size = entry_stat.st_size;
+        memset(&entry->time, 0, sizeof(struct date_time_t));
+        entry->size = 0;
+        if(stat(entry_full_name, &entry_stat) == 0) { entry->size = entry_stat.st_size; }
         get_write_time_file(entry_full_name, &entry->time);
 
         /* calculates the length of the entry name and uses
-- 
2.43.0


From b7df72728e9c063744ba57d0aee0830e4970809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:36 +0000
Subject: [PATCH 095/102] fix: stop when the tracker url or the torrent are not
 valid

---
 src/viriatum/system/torrent.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index b564c6c..3e3f3d6 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -64,7 +64,14 @@ ERROR_CODE _create_tracker_connection(
 
     /* parses the provided url populating a structure with
     the details of such url */
-    parse_url_static(url, strlen(url), &url_static);
+    error = parse_url_static(url, strlen(url), &url_static);
+    if(error) {
+        delete_http_client_parameters(parameters);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem parsing tracker url"
+        );
+    }
 
     /* populates the parameters structure with the
     required values for the HTTP client request */
@@ -101,6 +108,17 @@ ERROR_CODE _create_tracker_connection(
         );
     }
 
+    /* in case the file does not contain a dictionary it's not a
+    valid torrent description and there's nothing to be used */
+    if(type == NULL || type->type != SORT_MAP_TYPE) {
+        if(type != NULL) { free_type(type); }
+        delete_http_client_parameters(parameters);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading torrent file"
+        );
+    }
+
     /* retries the info part of the torrent description, this
     value contains "valuable" information describing the file
     and may be used to generate the info hash */
@@ -110,6 +128,17 @@ ERROR_CODE _create_tracker_connection(
         (void **) &_type
     );
 
+    /* in case there's no info part in the description there's no
+    way to identify the file */
+    if(_type == NULL) {
+        free_type(type);
+        delete_http_client_parameters(parameters);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem finding the torrent info"
+        );
+    }
+
     /* encodes the info dictionary into bencoding and calculates
     the sha1 value of the encoded value as the info hash value
     that uniquely identifies the file over the grid */
-- 
2.43.0


From 10a1b604e1f6dac23dccf6f2759156c4895d84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:51 +0000
Subject: [PATCH 096/102] fix: do not use a client connection that was not
 created

---
 src/viriatum/system/torrent.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index 3e3f3d6..54fe9af 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -167,12 +167,16 @@ ERROR_CODE _create_tracker_connection(
     /* creates a general HTTP client connection structure containing
     all the general attributes for a connection, then sets the
     "local" connection reference from the pointer */
-    _create_client_connection(
+    error = _create_client_connection(
         connection_pointer,
         service,
         url_static.host,
         url_static.port
     );
+    if(error) {
+        delete_http_client_parameters(parameters);
+        RAISE_AGAIN(error);
+    }
     connection = *connection_pointer;
 
     /* sets the HTTP client protocol as the protocol to be
@@ -203,7 +207,8 @@ ERROR_CODE _create_torrent_connection(
     /* creates a general client conneciton structure containing
     all the general attributes for a connection, then sets the
     "local" connection reference from the pointer */
-    _create_client_connection(connection_pointer, service, hostname, port);
+    ERROR_CODE error = _create_client_connection(connection_pointer, service, hostname, port);
+    if(error) { RAISE_AGAIN(error); }
     connection = *connection_pointer;
 
     /* sets the torrent protocol as the protocol to be
-- 
2.43.0


From 86af91337cfb634a5aff6f8cdfdef57dc533aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:43 +0000
Subject: [PATCH 097/102] fix: give the release flag of a data structure a
 value

---
 src/viriatum/system/service.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index e7604ea..6c839a6 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -153,6 +153,9 @@ void create_data(struct data_t **data_pointer) {
     /* allocates space for the data */
     struct data_t *data = (struct data_t *) MALLOC(data_size);
 
+    /* by default the base data is not released with the structure */
+    data->release = FALSE;
+
     /* sets the data attributes (default) values */
     data->data = NULL;
     data->data_base = NULL;
-- 
2.43.0


From b52eb96a55b9e4c6c4ddd3163b5c97cf844c4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:43 +0000
Subject: [PATCH 098/102] fix: do not redirect into a log file that was not
 opened

---
 src/viriatum/viriatum.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/viriatum.c b/src/viriatum/viriatum.c
index daadd15..c391ded 100644
--- a/src/viriatum/viriatum.c
+++ b/src/viriatum/viriatum.c
@@ -335,14 +335,18 @@ void daemonize() {
     /* opens the log file and redirects the standard output stream
     into it so that every log message is sent there */
     log_file = open(VIRIATUM_LOG_PATH, O_CREAT | O_WRONLY | O_APPEND, 0640);
-    dup2(log_file, STDOUT_FILENO);
-    close(log_file);
+    if(log_file >= 0) {
+        dup2(log_file, STDOUT_FILENO);
+        close(log_file);
+    }
 
     /* opens the error file and redirects the standard error stream
     into it so that every error message is sent there */
     log_file = open(VIRIATUM_LOG_E_PATH, O_CREAT | O_WRONLY | O_APPEND, 0640);
-    dup2(log_file, STDERR_FILENO);
-    close(log_file);
+    if(log_file >= 0) {
+        dup2(log_file, STDERR_FILENO);
+        close(log_file);
+    }
 
     /* closes the various pending streams from the
     daemon process (not going to output them) */
-- 
2.43.0


From ffc253b930bd6d9f2f33826d7c2db9c06434a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:26 +0000
Subject: [PATCH 099/102] fix: do not send parameters that were not encoded

---
 src/viriatum/system/torrent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index 54fe9af..2302bb2 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -151,7 +151,7 @@ ERROR_CODE _create_tracker_connection(
     sequence of key values, this is an automator utility function
     for the creation of the string and the provided buffer should
     have been previously allocated with enough space */
-    parameters_http_c(
+    error = parameters_http_c(
         parameters->params, VIRIATUM_MAX_URL_SIZE, 9,
         "info_hash", info_hash, 20,
         "peer_id", peer_id, 20,
@@ -163,6 +163,10 @@ ERROR_CODE _create_tracker_connection(
         "no_peer_id", "0", sizeof("0") - 1,
         "event", "started", sizeof("started") - 1
     );
+    if(error) {
+        delete_http_client_parameters(parameters);
+        RAISE_AGAIN(error);
+    }
 
     /* creates a general HTTP client connection structure containing
     all the general attributes for a connection, then sets the
-- 
2.43.0


From 3308b502dd00bef9da89a2a39c111c3f197ee7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:42 +0000
Subject: [PATCH 100/102] fix: report a file that was not completely written

---
 src/viriatum_commons/encoding/bencoding.c |  4 +++-
 src/viriatum_commons/io/file.c            | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index a95b245..941af47 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -141,12 +141,14 @@ ERROR_CODE encode_bencoding_file(char *file_path, struct type_t *type) {
     hold the size of that buffer */
     unsigned char *encoded_buffer;
     size_t encoded_buffer_length;
+    ERROR_CODE return_value;
 
     /* runs the encoding process over the provided type structure
     and then uses the resulting buffer to write it to the file */
     encode_bencoding(type, &encoded_buffer, &encoded_buffer_length);
-    write_file(file_path, encoded_buffer, encoded_buffer_length);
+    return_value = write_file(file_path, encoded_buffer, encoded_buffer_length);
     FREE(encoded_buffer);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
 
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 36fc925..7cc8831 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -125,6 +125,9 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     /* allocates space for the file */
     FILE *file;
 
+    /* allocates space for the number of bytes written */
+    size_t number_bytes;
+
     /* ensures that the file path is correctly converted
     into the proper system path, through encoding conversion */
     SYSTEM_PATH(file_path);
@@ -139,9 +142,18 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
             (unsigned char *) "Problem opening file"
         );
     }
-    fwrite(buffer, sizeof(char), buffer_size, file);
+    number_bytes = fwrite(buffer, sizeof(char), buffer_size, file);
     fclose(file);
 
+    /* in case not every byte was written raises an error as the
+    contents of the file are not complete */
+    if(number_bytes != buffer_size) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem writing file"
+        );
+    }
+
     /* raise no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From db25180224d39155305fe05c3cba1cc1af3746a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:54 +0000
Subject: [PATCH 101/102] fix: ignore template nodes without the parameters
 they need

---
 src/viriatum_commons/template/handler.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 0aa631d..377d7ac 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -452,7 +452,9 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
-            if(strcmp((char *) node->name, "out") == 0) {
+            if(node->name == NULL) {
+                /* a node without a name has no known meaning */
+            } else if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
             } else if(strcmp((char *) node->name, "foreach") == 0) {
@@ -522,6 +524,10 @@ void _traverse_out_buffer(struct template_handler_t *template_handler, struct te
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
 
+    /* in case there's no value parameter in the node there's nothing
+    to be sent to the output */
+    if(value_parameter == NULL) { return; }
+
     /* switches over the value parameter type to
     update the string buffer accordingly */
     switch(value_parameter->type) {
@@ -590,6 +596,10 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
 
+    /* in case any of the required parameters is not present in the
+    node there's nothing to be iterated */
+    if(item_parameter == NULL || from_parameter == NULL) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
@@ -648,8 +658,9 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
     template handler (dereferencing) */
     get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found or there's no value to
+    be compared with */
+    if(value == NULL || value_parameter == NULL) {
         /* returns immediately */
         return;
     }
-- 
2.43.0


From c42025feeebbf3b84ce023acc4b854f9b44d7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:54 +0000
Subject: [PATCH 102/102] fix: give the thread identifier a value

---
 src/viriatum_commons/thread/thread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/thread/thread_pool.c b/src/viriatum_commons/thread/thread_pool.c
index 904d83f..2b39af5 100644
--- a/src/viriatum_commons/thread/thread_pool.c
+++ b/src/viriatum_commons/thread/thread_pool.c
@@ -91,7 +91,7 @@ void delete_thread_pool(struct thread_pool_t *thread_pool) {
 
 void create_thread_pool_element(struct thread_pool_t *thread_pool) {
     /* allocates space for the thread id */
-    THREAD_IDENTIFIER thread_id;
+    THREAD_IDENTIFIER thread_id = 0;
 
     /* retrieves the thread pool element size */
     size_t thread_pool_element_size = sizeof(struct thread_pool_element_t);
-- 
2.43.0

