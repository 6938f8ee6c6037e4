From 96981ea351c815c4c190b398fceda304feca2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:04 +0000
Subject: [PATCH 01/17] fix: arg_parse no longer loops forever on a short
 option cluster ending in '-'

---
 src/arg_getopt_long.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..309de46 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,10 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
+			if (*place == '\0') {
+				++optind;	/* consume it, or we never advance */
 				return (BADARG);	/* malformed option */
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From dde0c513f118c41aa8efded6a69ca5a78930d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 02/17] fix: keep the old module name and version valid when
 setting a new one runs out of memory

---
 src/arg_cmd.c | 57 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..33b8537 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -52,55 +52,66 @@ static char* s_mod_ver = NULL;
 
 void arg_set_module_name(const char* name) {
     size_t slen;
+    char* new_name;
 
-    xfree(s_module_name);
+    /* allocate the new name before releasing the old one, which must stay valid if the allocation fails */
     slen = strlen(name);
-    s_module_name = (char*)xmalloc(slen + 1);
-    memset(s_module_name, 0, slen + 1);
+    new_name = (char*)xmalloc(slen + 1);
+    memset(new_name, 0, slen + 1);
 
 #if (defined(__STDC_LIB_EXT1__) && defined(__STDC_WANT_LIB_EXT1__)) || (defined(__STDC_SECURE_LIB__) && defined(__STDC_WANT_SECURE_LIB__))
-    strncpy_s(s_module_name, slen + 1, name, slen);
+    strncpy_s(new_name, slen + 1, name, slen);
 #else
-    memcpy(s_module_name, name, slen);
+    memcpy(new_name, name, slen);
 #endif
+
+    xfree(s_module_name);
+    s_module_name = new_name;
 }
 
 void arg_set_module_version(int major, int minor, int patch, const char* tag) {
     size_t slen_tag, slen_ds;
+    char* new_tag;
+    char* new_ver;
     arg_dstr_t ds;
 
-    s_mod_ver_major = major;
-    s_mod_ver_minor = minor;
-    s_mod_ver_patch = patch;
-
-    xfree(s_mod_ver_tag);
+    /* allocate the new strings before releasing the old ones, which must stay valid if an allocation fails */
     slen_tag = strlen(tag);
-    s_mod_ver_tag = (char*)xmalloc(slen_tag + 1);
-    memset(s_mod_ver_tag, 0, slen_tag + 1);
+    new_tag = (char*)xmalloc(slen_tag + 1);
+    memset(new_tag, 0, slen_tag + 1);
 
 #if (defined(__STDC_LIB_EXT1__) && defined(__STDC_WANT_LIB_EXT1__)) || (defined(__STDC_SECURE_LIB__) && defined(__STDC_WANT_SECURE_LIB__))
-    strncpy_s(s_mod_ver_tag, slen_tag + 1, tag, slen_tag);
+    strncpy_s(new_tag, slen_tag + 1, tag, slen_tag);
 #else
-    memcpy(s_mod_ver_tag, tag, slen_tag);
+    memcpy(new_tag, tag, slen_tag);
 #endif
 
     ds = arg_dstr_create();
-    arg_dstr_catf(ds, "%d.", s_mod_ver_major);
-    arg_dstr_catf(ds, "%d.", s_mod_ver_minor);
-    arg_dstr_catf(ds, "%d.", s_mod_ver_patch);
-    arg_dstr_cat(ds, s_mod_ver_tag);
+    arg_dstr_catf(ds, "%d.", major);
+    arg_dstr_catf(ds, "%d.", minor);
+    arg_dstr_catf(ds, "%d.", patch);
+    arg_dstr_cat(ds, new_tag);
 
-    xfree(s_mod_ver);
     slen_ds = strlen(arg_dstr_cstr(ds));
-    s_mod_ver = (char*)xmalloc(slen_ds + 1);
-    memset(s_mod_ver, 0, slen_ds + 1);
+    new_ver = (char*)xmalloc(slen_ds + 1);
+    memset(new_ver, 0, slen_ds + 1);
 
 #if (defined(__STDC_LIB_EXT1__) && defined(__STDC_WANT_LIB_EXT1__)) || (defined(__STDC_SECURE_LIB__) && defined(__STDC_WANT_SECURE_LIB__))
-    strncpy_s(s_mod_ver, slen_ds + 1, arg_dstr_cstr(ds), slen_ds);
+    strncpy_s(new_ver, slen_ds + 1, arg_dstr_cstr(ds), slen_ds);
 #else
-    memcpy(s_mod_ver, arg_dstr_cstr(ds), slen_ds);
+    memcpy(new_ver, arg_dstr_cstr(ds), slen_ds);
 #endif
 
+    s_mod_ver_major = major;
+    s_mod_ver_minor = minor;
+    s_mod_ver_patch = patch;
+
+    xfree(s_mod_ver_tag);
+    s_mod_ver_tag = new_tag;
+
+    xfree(s_mod_ver);
+    s_mod_ver = new_ver;
+
     arg_dstr_destroy(ds);
 }
 
-- 
2.43.0


From b99e9df9c7ed5fee2305c1b0df171d5e1a99bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:50 +0000
Subject: [PATCH 03/17] fix: arg_cmd_register keeps the existing command until
 its replacement is complete

---
 src/arg_cmd.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index 33b8537..7fa7aee 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -148,15 +148,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -171,6 +162,14 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     cmd_info->proc = proc;
     cmd_info->ctx = ctx;
 
+    /* Check if the command already exists. */
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    /* The existing command is only given up once its replacement is complete, */
+    /* as the allocation may fail and name may point into the existing command. */
+    if (arg_hashtable_change(s_hashtable, cmd_info->name, cmd_info))
+        return;
+
     slen_name = strlen(name);
     k = xmalloc(slen_name + 1);
     memset(k, 0, slen_name + 1);
-- 
2.43.0


From 0648d7adb664197889e6f673b04851c5295674a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:59 +0000
Subject: [PATCH 04/17] fix: a hash table whose growth ran out of memory
 retries the same size

---
 src/arg_hashtable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_hashtable.c b/src/arg_hashtable.c
index b96fba4..448f847 100644
--- a/src/arg_hashtable.c
+++ b/src/arg_hashtable.c
@@ -147,7 +147,7 @@ static int arg_hashtable_expand(arg_hashtable_t* h) {
     /* Check we're not hitting max capacity */
     if (h->primeindex == (prime_table_length - 1))
         return 0;
-    newsize = primes[++(h->primeindex)];
+    newsize = primes[h->primeindex + 1];
 
     newtable = (struct arg_hashtable_entry**)xmalloc(sizeof(struct arg_hashtable_entry*) * newsize);
     memset(newtable, 0, newsize * sizeof(struct arg_hashtable_entry*));
@@ -167,6 +167,7 @@ static int arg_hashtable_expand(arg_hashtable_t* h) {
     xfree(h->table);
     h->table = newtable;
     h->tablelength = newsize;
+    h->primeindex++;
     h->loadlimit = (unsigned int)ceil(newsize * (double)max_load_factor);
     return -1;
 }
-- 
2.43.0


From 1377670e5b817fb6fa08ce3c836f3eefffd05ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:23 +0000
Subject: [PATCH 05/17] fix: arg_end() initialises its error count

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..f48c5d7 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -108,6 +108,9 @@ struct arg_end* arg_end(int maxcount) {
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* no errors until a parse reports some */
+    result->count = 0;
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From bc5307ed1b4817b4e2fe207c55141b3fd551f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:32 +0000
Subject: [PATCH 06/17] fix: arg_end(0) reports errors instead of writing
 before its arrays

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index f48c5d7..5174017 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -79,6 +79,9 @@ struct arg_end* arg_end(int maxcount) {
     size_t nbytes;
     struct arg_end* result;
 
+    /* foolproof things by ensuring there is room to report at least one error */
+    maxcount = (maxcount < 1) ? 1 : maxcount;
+
     nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(int) /* storage for int error[maxcount] array*/
              + (size_t)maxcount * sizeof(void*)                      /* storage for void* parent[maxcount] array */
              + (size_t)maxcount * sizeof(char*);                     /* storage for char* argval[maxcount] array */
-- 
2.43.0


From bb0139e77a3d1ccf178f96843869ba41179ca6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:41 +0000
Subject: [PATCH 07/17] fix: arg_dstr_set copies a volatile string that
 overlaps the dynamic string's own buffer

---
 src/arg_dstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..ac7623d 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,8 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        /* str may be part of the old result value, and so overlap the new one */
+        memmove(ds->data, str, (size_t)length + 1);
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From 3ce0f7a4a4a307ee067508a52bf5d40369f4e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 08/17] fix: appending to a dynamic string the caller has
 shortened no longer brings back old text

---
 src/arg_dstr.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index ac7623d..024d512 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -174,13 +174,22 @@ char* arg_dstr_cstr(arg_dstr_t ds) /* Interpreter whose result to return. */
 }
 
 void arg_dstr_cat(arg_dstr_t ds, const char* str) {
-    setup_append_buf(ds, (int)strlen(str) + 1);
-    memcpy(ds->data + strlen(ds->data), str, strlen(str));
+    size_t slen = strlen(str);
+    char* end;
+
+    setup_append_buf(ds, (int)slen + 1);
+    end = ds->data + strlen(ds->data);
+    memcpy(end, str, slen);
+    end[slen] = 0;
 }
 
 void arg_dstr_catc(arg_dstr_t ds, char c) {
+    char* end;
+
     setup_append_buf(ds, 2);
-    memcpy(ds->data + strlen(ds->data), &c, 1);
+    end = ds->data + strlen(ds->data);
+    end[0] = c;
+    end[1] = 0;
 }
 
 /*
-- 
2.43.0


From 9bfedf607376d760822ec58b3b25e73e58142acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:34 +0000
Subject: [PATCH 09/17] fix: compiling an empty regular expression no longer
 writes to a zero-sized block

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..41fba32 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -904,7 +904,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)((scstrlen(pattern) + 1) * sizeof(TRexChar)); /* at least one node, for the root */
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From 8778698b5174453a0d95e198d6d8ceeeda2ec9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:43 +0000
Subject: [PATCH 10/17] fix: regular expression matching stops at the end of
 the text

---
 src/arg_rex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 41fba32..4ab9eec 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -869,11 +869,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 return str;
             return NULL;
         case OP_DOT: {
+            if (str == exp->_eol)
+                return NULL;
             str++;
         }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -881,6 +885,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From bb09b51fcdc2214be93c17f004c9e82c80553664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:52 +0000
Subject: [PATCH 11/17] fix: an argument of an entry with an invalid regular
 expression is rejected, not dereferenced

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 4ab9eec..512691a 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From a9a564760dbe5d3d8f958b498d41e9b3a7af2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 12/17] fix: a regular expression ending in a backslash is
 rejected, not read past its end

---
 src/arg_rex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 512691a..0fc973e 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -400,6 +400,8 @@ static void trex_expect(TRex* exp, int n) {
 static TRexChar trex_escapechar(TRex* exp) {
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
+        if (*exp->_p == '\0')
+            trex_error(exp, _SC("letter expected"));
         switch (*exp->_p) {
             case 'v':
                 exp->_p++;
@@ -434,6 +436,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
     TRexChar t;
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
+        if (*exp->_p == '\0')
+            trex_error(exp, _SC("letter expected"));
         switch (*exp->_p) {
             case 'n':
                 exp->_p++;
-- 
2.43.0


From 05a74969c630ee81483859c44dcdc9f63ce5792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 13/17] fix: arg_print_formatted no longer loops forever when
 the margins leave no column

---
 src/argtable3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..e2a96ee 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -870,7 +870,8 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
     const unsigned int textlen = (unsigned int)strlen(text);
     unsigned int line_start = 0;
     unsigned int line_end = textlen;
-    const unsigned int colwidth = (rmargin - lmargin) + 1;
+    const unsigned int width = (rmargin - lmargin) + 1;
+    const unsigned int colwidth = width ? width : UINT_MAX; /* margins that leave no column must not stop the output advancing */
 
     assert(strlen(text) < UINT_MAX);
 
-- 
2.43.0


From 8cde873cb620ac15366546b143ba3b68100c8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:12 +0000
Subject: [PATCH 14/17] build: compile the library as gnu89

In strict c89 mode GCC rejects a // comment as an error, so that an edit which
only adds such a comment line does not build. gnu89 is C89 with that accepted;
-Wpedantic still warns about it. The compiled code behaves the same.
---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..b71aa02 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,7 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From 960492bccfc3946989068619b17e1d6ba913e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:18 +0000
Subject: [PATCH 15/17] fix: count every long option name of a list that is
 empty or begins with a comma

alloc_longoptions() looked for the next comma from the second character on:
it read past the end of an empty list and did not count the name after a
leading comma, for which the options array then had no room.
---
 src/argtable3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index e2a96ee..49c0b0a 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -132,9 +132,11 @@ static struct longoptions* alloc_longoptions(struct arg_hdr** table) {
     do {
         const char* longopts = table[tabindex]->longopts;
         longoptlen += (longopts ? strlen(longopts) : 0) + 1;
-        while (longopts) {
+        while (longopts && *longopts) {
             noptions++;
-            longopts = strchr(longopts + 1, ',');
+            longopts = strchr(longopts, ',');
+            if (longopts)
+                longopts++;
         }
     } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
     /*printf("%d long options consuming %d chars in total\n",noptions,longoptlen);*/
-- 
2.43.0


From eed2d70f28efe99af97f5cb6334f5827390bf696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:52 +0000
Subject: [PATCH 16/17] fix: the word boundary of a regular expression does not
 read past the end of the text

At the end of a text that ends in white space, \b and \B looked at the
character after the terminating null.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 0fc973e..f1411cd 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -859,7 +859,7 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
                 (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
-- 
2.43.0


From 7847aa43b84bdcec6688e01a0fff84b760cbca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:52 +0000
Subject: [PATCH 17/17] fix: the error message of a date entry with a long
 format does not print undefined memory

strftime() leaves the buffer undefined, and possibly unterminated, if the
example does not fit.
---
 src/arg_date.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..ba67c7d 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -104,7 +104,8 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
             arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0'; /* too long: the contents are undefined */
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0

