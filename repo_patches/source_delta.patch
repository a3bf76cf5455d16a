From 59b9b1413837d4d66e06ad1d4bd22bed5f13a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 01/19] fix: strnstr/strxstr honour the given length instead of
 reading s[0] unconditionally

---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..a038180 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From cc95760a8f959813308660dbdd295d13b03270c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 02/19] fix: revnspn/revxspn counted the byte that ends the
 span; adjust the caller that compensated

---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index a038180..4623ce3 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From c7fce8e97424e5429a35a77a241b5445a831a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 03/19] fix: strxchr/revxchr/strxchp never matched characters
 above 0x7f (char compared with tolower's int)

---
 coda/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 4623ce3..bc1e6be 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -15,7 +15,7 @@ char *coda_strxchr(const char *s, char c, size_t len)
 	const char *e = s + len;
 	for (c = tolower(c); s < e; ++s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -35,7 +35,7 @@ char *coda_revxchr(const char *s, char c, size_t len)
 	const char *b = s - 1;
 	for (s = b + len, c = tolower(c); s > b; --s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -55,7 +55,7 @@ size_t coda_strxchp(const char *s, char c, size_t len)
 	size_t p = 0;
 	for (c = tolower(c); p < len; ++p)
 	{
-		if (c == tolower(s[p])) return p;
+		if (c == (char) tolower(s[p])) return p;
 	}
 	return len;
 }
-- 
2.43.0


From a10d25ace75b309124eb85bcecbac1999bc23c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 04/19] fix: url_escape indexed its table with a signed char,
 cut escapes in half and underflowed on tiny buffers

---
 coda/url.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..14465fe 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -266,13 +266,13 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	sz -= 3;
-	while (*s && (ptr < sz))
+	while (*s && (ptr + 3 < sz))
 	{
-		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
+		const unsigned char c = *s;
+
+		if (table_urlenc[c >> 5] & (1 << (c & 0x1f)))
 		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
+			ptr += snprintf(dest + ptr, 4, "%%%02X", c);
 		}
 		else if (*s == ' ')
 		{
-- 
2.43.0


From 66e836a48921c0dd81c3d01291af3ab0ea73defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 05/19] fix: url_unescape wrote past a destination of fewer
 than two bytes

---
 coda/url.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 14465fe..ffb1e82 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -289,9 +289,10 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 
 void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
+	if (0 == sz) return;
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 2 < sz))
 	{
 		if (*s == '+')
 		{
-- 
2.43.0


From 375bc979939b15055d7c6b49b22c202c8c9f08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 06/19] fix: url_preunescape wrote past the end of the
 destination and lost kept \xNN sequences

---
 coda/url.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index ffb1e82..89ec38c 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -349,8 +349,9 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
+	if (0 == sz) return;
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 5 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -366,7 +367,7 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 4 < sz) memcpy(dest + ptr, s, 3);
+				memcpy(dest + ptr, s, 3);
 				ptr += 3;
 			}
 			s += 3;
@@ -385,7 +386,8 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
-- 
2.43.0


From 7f4136a2a68c3088799beca06c46f50a6901ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:39 +0000
Subject: [PATCH 07/19] fix: base58 allocation failures, length of the encoded
 text, and decode of an invalid first character

---
 coda/base58.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..655e550 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -8,8 +8,10 @@ static inline unsigned char to_uchar (char ch)
     return ch;
 }
 
-void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+/* returns the length of the text written, or -1 if there is no memory */
+static ssize_t base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
 {
+    char* out_begin = out;
     static const char b58str[58] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
 
     while (outlen && inlen && !*in)
@@ -25,6 +27,11 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     char* b58_begin = NULL;
     char* b58_curr = NULL;
     b58_begin = b58_curr = (char*)calloc(b58len, sizeof(unsigned char));
+    if (!b58_begin)
+    {
+        if (outlen) *out = '\0';
+        return -1;
+    }
 
     while (inlen)
     {
@@ -56,6 +63,13 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     if (outlen) *out = '\0';
 
     free(b58_begin);
+
+    return out - out_begin;
+}
+
+void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
+{
+    base58_encode (in, inlen, out, outlen);
 }
 
 size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
@@ -74,8 +88,15 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
     if (!*out)
         return outlen;
 
-    coda_base58_encode (in, inlen, *out, outlen);
-    return outlen - 1;
+    ssize_t len = base58_encode (in, inlen, *out, outlen);
+    if (len < 0)
+    {
+        free (*out);
+        *out = NULL;
+        return outlen;
+    }
+
+    return len;
 }
 
 #define B58(_)                 \
@@ -237,7 +258,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
 
     while (inlen)
     {
@@ -253,14 +274,14 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+            return -_inlen + inlen - 1;
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
     }
 
     while (b256len && !*b256_curr)
@@ -295,7 +316,7 @@ ssize_t coda_base58_decode_alloc (const char *in, size_t inlen, char **out)
     size_t needlen = zeroes + b256len * 733 / 1000 + 1;
     *out = malloc (needlen);
     if (!*out)
-        return true;
+        return -1;
 
     ssize_t ret = coda_base58_decode (in, inlen, *out);
     if (ret < 0)
-- 
2.43.0


From db30b9a22dc3f661fd049f1876d2e604fadc82ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 08/19] fix: hash_map connect/disconnect leaked the segment,
 kept ids and released a lock it did not hold

---
 coda/shm_hash_map.tcc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..6a04b00 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -428,12 +428,21 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	try
 	{
 		lock_write_rw();
-		attach(shmem_p);
+
+		try
+		{
+			attach(shmem_p);
+		}
+		catch (const std::exception& e)
+		{
+			unlock_write_rw();
+			throw;
+		}
+
 		unlock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
-		unlock_write_rw();
 		disconnect();
 		throw;
 	}
@@ -442,18 +451,17 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
-	{
-		return;
-	}
+	uint8_t *ptr = shmem_p;
 
 	detach();
 
 	sem_id = -1;
 	shm_id = -1;
 
-	shmdt(shmem_p);
-	shmem_p = 0;
+	if (0 != ptr)
+	{
+		shmdt(ptr);
+	}
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From a00c08e7d3fdeb7a33ffc82aca5322bb503fa008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 09/19] fix: coda_inet_addr accepted octets that overflow to
 less than 256

---
 coda/socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..7d30443 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -81,6 +81,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
 			continue;
 		}
 
-- 
2.43.0


From 9d05e75c7c24429a5d350b2bce7054479e2b66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 10/19] fix: coda_random_init closes the device when read fails
 and does not seed from a short read

---
 coda/random.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..c1259a8 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,10 +20,10 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
 	close(fd);
 
+	if ((int) sizeof(rnd_from_device) != rc) return -1;
+
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
 
-- 
2.43.0


From c3659fcc2fb672861ad826e9182868c655581840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 11/19] fix: coda_fdopen closes the file it opened when it
 cannot be moved

---
 coda/system.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..05cfd76 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -29,7 +29,19 @@ int coda_fdopen(int fd, const char* path, int flags)
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	if (0 > fd || td == fd)
+	{
+		return td;
+	}
+
+	fd = dup2(td, fd);
+
+	if (0 > close(td))
+	{
+		return -1;
+	}
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From 82a036d86efb66735ad70322ba7a049059019fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 12/19] fix: coda_mkpath does not read past the end of an empty
 path

---
 coda/system.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/system.c b/coda/system.c
index 05cfd76..4af378a 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -49,6 +49,8 @@ int coda_mkpath(char* path)
 	int rc;
 	char* p = path + 1;
 
+	if (0 == *path) return 0;
+
 	for (; *p; ++p)
 	{
 		if (*p != '/') continue;
-- 
2.43.0


From d693e6275b5e34bf615a3432f70ee48df09beb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 13/19] fix: coda_mkpidf reports a pid-file that was written
 only in part

---
 coda/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 4af378a..261066c 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -108,7 +108,7 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
+	if (nb != write(fd, buf, nb))
 	{
 		flock(fd, LOCK_UN);
 		close(fd);
-- 
2.43.0


From 3447cde58889ed0a46abce12aecf395ae0458c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 14/19] fix: coda_daemon_fork closes /dev/null when it cannot
 be duplicated

---
 coda/daemon.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..6d82e6b 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -82,13 +82,9 @@ int coda_daemon_fork()
         return -1;
     }
 
-    if (0 > dup2(fd, STDIN_FILENO))
-    {
-        return -1;
-    }
-
-    if (0 > dup2(fd, STDOUT_FILENO))
+    if (0 > dup2(fd, STDIN_FILENO) || 0 > dup2(fd, STDOUT_FILENO))
     {
+        if (fd > STDERR_FILENO) close(fd);
         return -1;
     }
 
-- 
2.43.0


From 45d1bf9dbe452dcce435101b00fb463d72308b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:53 +0000
Subject: [PATCH 15/19] fix: log_create does not write into the path it is
 given

---
 coda/logger.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..c74d4cf 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -3,6 +3,8 @@
 #include <fcntl.h>
 #include <stdarg.h>
 #include <unistd.h>
+#include <stdlib.h>
+#include <string.h>
 #include <pthread.h>
 #include "logger.h"
 
@@ -38,7 +40,19 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	size_t size = strlen(path) + 1;
+	char* copy = malloc(size);
+	int rc;
+
+	if (NULL == copy) return -1;
+
+	/* coda_mkpath modifies its argument */
+
+	memcpy(copy, path, size);
+	rc = coda_mkpath(copy);
+	free(copy);
+
+	if (0 > rc) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 94b5073becb6b669dbf82f4214c8d81c2d2bd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:49 +0000
Subject: [PATCH 16/19] fix: synque releases its mutex when copying an element
 throws

---
 coda/synque.hpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..68d9613 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,14 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	struct guard /* the mutex is released also when copying an element throws */
+	{
+		pthread_mutex_t* m;
+
+		guard(pthread_mutex_t* mutex) : m(mutex) { pthread_mutex_lock(m); }
+		~guard() { pthread_mutex_unlock(m); }
+	};
+
 public:
 	synque()
 	{
@@ -29,28 +37,25 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,7 +63,6 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -66,26 +70,22 @@ public:
 		e = d.back();
 		d.pop_back();
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		guard g(&m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -100,17 +100,13 @@ public:
 			d.pop_back();
 		}
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	size_t size()
 	{
-		pthread_mutex_lock(&m);
-		size_t sz = d.size();
-		pthread_mutex_unlock(&m);
-		return sz;
+		guard g(&m);
+		return d.size();
 	}
 };
 
-- 
2.43.0


From 281effe9b259866a78ac84c432467b223b72ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:49 +0000
Subject: [PATCH 17/19] fix: formatting into std::string survives failed
 conversions, huge limits and long texts

---
 coda/string.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..4f7c238 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -15,15 +16,22 @@ std::string coda_strprintf(const char *fmt, ...)
 	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);
 	va_end(ap);
 
+	if (0 > bytes) return std::string();
+
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		BUF = new char [(size_t) bytes + 1];
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(BUF, (size_t) bytes + 1, fmt, ap);
 		va_end(ap);
+
+		std::string res(BUF, bytes);
+		delete [] BUF;
+
+		return res;
 	}
 
-	return BUF;
+	return std::string(BUF, bytes);
 }
 
 int coda_strappend(std::string& out, const char* fmt, ...)
@@ -35,12 +43,19 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);
 	va_end(ap);
 
+	if (0 > bytes) return -1;
+
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		BUF = new char [(size_t) bytes + 1];
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(BUF, (size_t) bytes + 1, fmt, ap);
 		va_end(ap);
+
+		out.append(BUF, bytes);
+		delete [] BUF;
+
+		return bytes;
 	}
 
 	out.append(BUF, bytes);
@@ -55,6 +70,8 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 
 	int bytes;
 
+	if (num > INT_MAX) num = INT_MAX; /* no text is longer */
+
 	if (num < BUFSZ)
 	{
 		char BUF [BUFSZ];
@@ -64,7 +81,7 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		if (0 < bytes) out.append(BUF, bytes);
 	}
 	else
 	{
@@ -75,7 +92,7 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		if (0 < bytes) out.append(BUF, bytes);
 
 		delete [] BUF;
 	}
@@ -94,6 +111,8 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 
 	int bytes;
 
+	if (num > INT_MAX) num = INT_MAX; /* no text is longer */
+
 	if (num < BUFSZ)
 	{
 		char BUF[BUFSZ];
@@ -103,7 +122,7 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		if (0 < bytes) out.insert(pos, BUF, bytes);
 	}
 	else
 	{
@@ -114,7 +133,7 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		if (0 < bytes) out.insert(pos, BUF, bytes);
 
 		delete [] BUF;
 	}
-- 
2.43.0


From e477a8b814d5e729828f894ec2b4c444b6c8c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:49 +0000
Subject: [PATCH 18/19] fix: coda_get_uint64set skips fields without a number

---
 coda/string.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 4f7c238..81362b1 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -176,8 +176,7 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp)) result.insert(temp);
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From 161f7784dd566de4d480811850658025919221e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:49 +0000
Subject: [PATCH 19/19] fix: coda_cache::set kept the cache above its size
 limit when the key was stored already

---
 coda/cache.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..cdf3933 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
 			return;
 		}
 
@@ -96,6 +97,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
 		return;
 	}
 
-- 
2.43.0

