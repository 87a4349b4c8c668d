From 829b1d54faa16e02c4f10d1c767a97014df0d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 001/165] fix: printing a dictionary after a removal left a
 trailing separator

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..5d4bb5a 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -448,7 +448,7 @@ char *dictToString(Value value) {
            free(element);
        }
 
-       if (count != dict->count) {
+       if (count != dict->activeCount) {
            memcpy(dictString + dictStringLength, ", ", 2);
            dictStringLength += 2;
        }
-- 
2.43.0


From ee7c979741058d78712e15c5c6de7324f83fdcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 002/165] fix: a dictionary emptied by remove() was truthy

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..3fe910c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -820,7 +820,7 @@ bool isFalsey(Value value) {
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
            (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
-           (IS_DICT(value) && AS_DICT(value)->count == 0) ||
+           (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
            (IS_SET(value) && AS_SET(value)->count == 0);
 }
-- 
2.43.0


From 7563548769ed86b71d656a2008c0e053ae760776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 003/165] fix: removing from a set left slots that made later
 operations hang or succeed twice

---
 src/vm/value.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..47e0441 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -263,9 +263,29 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
     SetItem *entry = findSetEntry(set->entries, set->capacityMask, value);
     if (IS_EMPTY(entry->value)) return false;
 
-    // Place a tombstone in the entry.
     set->count--;
-    entry->deleted = true;
+
+    // Close the gap by moving back the entries that probed past it, so that
+    // deleted slots never accumulate.
+    uint32_t gap = entry - set->entries;
+    uint32_t index = gap;
+
+    for (;;) {
+        index = (index + 1) & set->capacityMask;
+        SetItem *next = &set->entries[index];
+
+        if (IS_EMPTY(next->value)) break;
+
+        uint32_t home = hashValue(next->value) & set->capacityMask;
+
+        // Entries whose home lies cyclically within (gap, index] stay.
+        if (((index - home) & set->capacityMask) < ((index - gap) & set->capacityMask)) continue;
+
+        set->entries[gap] = *next;
+        gap = index;
+    }
+
+    set->entries[gap].value = EMPTY_VAL;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
         // Figure out the new table size.
-- 
2.43.0


From f0117d1286daae41f700731b3037ccc4d2065539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 004/165] fix: 0 and -0 compared unequal

---
 src/vm/value.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vm/value.c b/src/vm/value.c
index 47e0441..ea482dc 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -70,6 +70,11 @@ static uint32_t hashValue(Value value) {
         return hashObject(AS_OBJ(value));
     }
 
+    // 0 and -0 are equal and have to hash alike
+    if (IS_NUMBER(value) && AS_NUMBER(value) == 0) {
+        return hashBits(NUMBER_VAL(0));
+    }
+
     return hashBits(value);
 }
 
@@ -535,6 +540,11 @@ bool valuesEqual(Value a, Value b) {
         }
     }
 
+    // 0 and -0 differ in their bits only
+    if (IS_NUMBER(a) && IS_NUMBER(b) && AS_NUMBER(a) == AS_NUMBER(b)) {
+        return true;
+    }
+
     return a == b;
 }
 
-- 
2.43.0


From 45f61353de5ba600f8274764318040db428a5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 005/165] fix: string < and > put non-ASCII text before its own
 prefixes

---
 src/vm/value.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index ea482dc..4d34658 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -556,11 +556,11 @@ bool compareStringLess(Value a, Value b) {
     int i;
 
     for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] < secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] < (unsigned char) secondString->chars[i]) {
             return true;
         }
 
-        if (firstString->chars[i] > secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] > (unsigned char) secondString->chars[i]) {
             return false;
         }
     }
@@ -580,11 +580,11 @@ bool compareStringGreater(Value a, Value b) {
     int i;
 
     for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] > secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] > (unsigned char) secondString->chars[i]) {
             return true;
         }
 
-        if (firstString->chars[i] < secondString->chars[i]) {
+        if ((unsigned char) firstString->chars[i] < (unsigned char) secondString->chars[i]) {
             return false;
         }
     }
-- 
2.43.0


From 465494366ea68869a0752debf4b48c987b2e3c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 006/165] fix: extending a list with itself never ended

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..b14018b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,10 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    // The list may be extended with itself
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From b343c764341499d9bb38874d83be49e28083ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 007/165] fix: list.pop(len) read past the end and dropped the
 last element

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index b14018b..9647ef0 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -138,7 +138,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From ef07f19ba346e32bfe7986f22ad745bbac700f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 008/165] fix: a negative slice start was ignored instead of
 counting from the end

---
 src/vm/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3fe910c..1457015 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2068,6 +2068,13 @@ static DictuInterpretResult run(DictuVM *vm) {
             } else {
                 indexStart = AS_NUMBER(sliceStartIndex);
 
+                // Count negative indexes from the end
+                if (indexStart < 0 && IS_LIST(objectValue)) {
+                    indexStart = AS_LIST(objectValue)->values.count + indexStart;
+                } else if (indexStart < 0 && IS_STRING(objectValue)) {
+                    indexStart = AS_STRING(objectValue)->length + indexStart;
+                }
+
                 if (indexStart < 0) {
                     indexStart = 0;
                 }
-- 
2.43.0


From f4b995878d21d0a4286cbd19739b88b7a1e0766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 009/165] fix: indexing a string with a non-number read its
 bits as a number

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1457015..83422ce 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1897,6 +1897,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                 }
 
                 case OBJ_STRING: {
+                    if (!IS_NUMBER(indexValue)) {
+                        RUNTIME_ERROR("String index must be a number.");
+                    }
+
                     ObjString *string = AS_STRING(subscriptValue);
                     int index = AS_NUMBER(indexValue);
 
-- 
2.43.0


From d7c14ce41053a43bf591b7c04404eecda07c779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 010/165] fix: a non-ASCII byte piped into the REPL read past a
 buffer

---
 src/cli/linenoise/linenoise.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cli/linenoise/linenoise.c b/src/cli/linenoise/linenoise.c
index 95fd824..4dbba99 100644
--- a/src/cli/linenoise/linenoise.c
+++ b/src/cli/linenoise/linenoise.c
@@ -1880,7 +1880,7 @@ static stringbuf *sb_getline(FILE *fh)
     int n = 0;
 
     while ((c = getc(fh)) != EOF) {
-        char ch;
+        char ch[2];
         n++;
         if (c == '\r') {
             /* CRLF -> LF */
@@ -1889,9 +1889,11 @@ static stringbuf *sb_getline(FILE *fh)
         if (c == '\n' || c == '\r') {
             break;
         }
-        ch = c;
+        ch[0] = c;
+        /* counting characters looks at the byte after a utf8 lead byte */
+        ch[1] = '\0';
         /* ignore the effect of character count for partial utf8 sequences */
-        sb_append_len(sb, &ch, 1);
+        sb_append_len(sb, ch, 1);
     }
     if (n == 0 || sb->data == NULL) {
         sb_free(sb);
-- 
2.43.0


From ccc258aef0b1da609a4117f730d69ddc7765a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 011/165] fix: a blank line piped into the REPL ended the
 session

---
 src/cli/linenoise/linenoise.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/linenoise/linenoise.c b/src/cli/linenoise/linenoise.c
index 4dbba99..96bb171 100644
--- a/src/cli/linenoise/linenoise.c
+++ b/src/cli/linenoise/linenoise.c
@@ -1895,10 +1895,14 @@ static stringbuf *sb_getline(FILE *fh)
         /* ignore the effect of character count for partial utf8 sequences */
         sb_append_len(sb, ch, 1);
     }
-    if (n == 0 || sb->data == NULL) {
+    if (n == 0) {
         sb_free(sb);
         return NULL;
     }
+    if (sb->data == NULL) {
+        /* A blank line is not the end of the input */
+        sb_append_len(sb, "", 0);
+    }
     return sb;
 }
 
-- 
2.43.0


From 640b8e14d5425392ce0e18069d42bf5398a3ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 012/165] fix: sorting a few hundred elements could take
 practically forever

---
 src/vm/datatypes/lists/lists.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 9647ef0..7dcc7ee 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -388,11 +388,11 @@ static void quickSort(ObjList *arr, int start, int end, int (*partition)(ObjList
         if (part - start < end - part) {
             quickSort(arr, start, part, partition);
 
-            start = start + 1;
+            start = part + 1;
         } else {
             quickSort(arr, part + 1, end, partition);
 
-            end = end - 1;
+            end = part;
         }
     }
 }
-- 
2.43.0


From 5c6a7e318871b3f52fbbfc83516ac54202646890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 013/165] fix: the text of no number, or of a denormal one, was
 converted wrongly by toNumber()

---
 src/vm/datatypes/strings.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..d5d998d 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -1,6 +1,9 @@
 #include "strings.h"
 #include "../memory.h"
 
+#include <limits.h>
+#include <math.h>
+
 
 static Value lenString(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 0) {
@@ -24,8 +27,8 @@ static Value toNumberString(DictuVM *vm, int argCount, Value *args) {
 
     double number = strtod(numberString, &end);
 
-    // Failed conversion
-    if (errno != 0 || *end != '\0') {
+    // Failed conversion (an underflow still gives the nearest number)
+    if ((errno != 0 && fabs(number) == HUGE_VAL) || end == numberString || *end != '\0') {
         int length = AS_STRING(args[0])->length;
 
         char *errorMsg = ALLOCATE(vm, char, 29 + length);
-- 
2.43.0


From 71cdd80fb8ccd2a056d48dd1ff38b90c05ee9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 014/165] fix: split() took a second argument of any type as a
 number

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index d5d998d..7712fa9 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -140,7 +140,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 26fe765561d1608e9c445fda08050fbb7bfc236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 015/165] fix: find() gave a wrong index when skipping two or
 more matches

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 7712fa9..1010599 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -271,7 +271,7 @@ static Value findString(DictuVM *vm, int argCount, Value *args) {
             break;
         }
 
-        position += (result - string) + (i * strlen(substr));
+        position = result - AS_CSTRING(args[0]);
         string = result + strlen(substr);
     }
 
-- 
2.43.0


From c0ca1b1a293e998dcf91d480c439cf4a09fee793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 016/165] fix: findLast() of a non-string dereferenced its bits
 as a pointer

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 1010599..34a1e70 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -284,6 +284,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Argument passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-- 
2.43.0


From 4b693c651265606a6f152fbca24621030fde7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 017/165] fix: replacing the empty string never returned

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 34a1e70..54a270c 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -348,6 +348,11 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     int replaceLen = replace->length;
     int stringLen = strlen(string) + 1;
 
+    // Nothing can be found to replace
+    if (len == 0) {
+        return stringValue;
+    }
+
     // Make a copy of the string so we do not modify the original
     char *tmp = ALLOCATE(vm, char, stringLen + 1);
     char *tmpFree = tmp;
-- 
2.43.0


From c12904b58156b5359210a859ee0f73a383d64657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 018/165] fix: rightStrip() and strip() left one character of
 an all-whitespace string

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 54a270c..34a8559 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -506,7 +506,7 @@ static Value rightStripString(DictuVM *vm, int argCount, Value *args) {
     int length;
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (length = string->length - 1; length > 0; --length) {
+    for (length = string->length - 1; length >= 0; --length) {
         if (!isspace(string->chars[length])) {
             break;
         }
-- 
2.43.0


From c277f8289c1aaa622d3effad918c603b05c52f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 019/165] fix: counting the empty string read past the end of
 the text

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 34a8559..a8ba5ed 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -552,6 +552,11 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     while ((haystack = strstr(haystack, needle))) {
         count++;
+
+        if (*haystack == '\0') {
+            break;
+        }
+
         haystack++;
     }
 
-- 
2.43.0


From eccba2023b5074997e37002838209206ac28ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 020/165] fix: repeat() wrote past its buffer for a count below
 one or a huge result

---
 src/vm/datatypes/strings.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index a8ba5ed..ec8e5b6 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -629,15 +629,26 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString *string = AS_STRING(args[0]);
-    int count = AS_NUMBER(args[1]);
+    double times = AS_NUMBER(args[1]);
 
+    if (!(times >= 0)) {
+        runtimeError(vm, "repeat() count argument must not be negative");
+        return EMPTY_VAL;
+    }
+
+    if (times * string->length >= INT_MAX) {
+        runtimeError(vm, "repeat() result is too long");
+        return EMPTY_VAL;
+    }
+
+    int count = string->length == 0 ? 0 : times;
     int tempLen = (string->length * count) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-    strcpy(temp, string->chars);
-    while (--count > 0) {
-        strcat(temp, string->chars);
+    for (int i = 0; i < count; i++) {
+        memcpy(temp + i * string->length, string->chars, string->length);
     }
+    temp[tempLen - 1] = '\0';
 
     return OBJ_VAL(takeString(vm, temp, tempLen - 1));
 }
-- 
2.43.0


From 6f8cfe77d43744a856c9b017f86b2ccb4da82605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 021/165] fix: collapseSpaces() wrote past its buffer and left
 its result unterminated

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index ec8e5b6..cf55c31 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -714,7 +714,7 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
-- 
2.43.0


From fedd7b82c600d456292c568e8a2936e486ad394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 022/165] fix: wrap() accepted any argument, overwrote text
 without spaces and left its result unterminated

---
 src/vm/datatypes/strings.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index cf55c31..8d5cdc8 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -729,28 +729,36 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "Argument passed to wrap() must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
-    
-    int len = AS_NUMBER(args[1]);
 
-    int last = 0;
-    int count = 0;
+    double len = AS_NUMBER(args[1]);
 
-    for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
+    int last = -1;
+    int start = 0;
+
+    for (int cur = 0; cur < string->length; cur++) {
         temp[cur] = string->chars[cur];
 
         if (isspace(temp[cur])) {
             last = cur;
-        } 
+        }
 
-        if (count >= len) {
+        // Break at the last whitespace of the line, if it has any
+        if (cur - start >= len && last >= start) {
             temp[last] = '\n';
-            count = 0;
+            start = last + 1;
         }
     }
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    temp[string->length] = '\0';
+
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From b54874adcc01162764a879cd285858fc0b40d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 023/165] fix: slice bounds far beyond the end wrapped around
 to the start

---
 src/vm/vm.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 83422ce..4f17ee2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <math.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -865,6 +866,21 @@ static void copyAnnotations(DictuVM *vm, ObjDict *superAnnotations, ObjDict *kla
     }
 }
 
+// Convert a slice bound, keeping those far out of range on their side
+static int toSliceIndex(Value value) {
+    double index = AS_NUMBER(value);
+
+    if (index >= INT_MAX / 2) {
+        return INT_MAX / 2;
+    }
+
+    if (!(index > -(INT_MAX / 2))) {
+        return -(INT_MAX / 2);
+    }
+
+    return index;
+}
+
 static DictuInterpretResult run(DictuVM *vm) {
     CallFrame *frame = &vm->frames[vm->frameCount - 1];
     register uint8_t* ip = frame->ip;
@@ -2070,7 +2086,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             if (IS_EMPTY(sliceStartIndex)) {
                 indexStart = 0;
             } else {
-                indexStart = AS_NUMBER(sliceStartIndex);
+                indexStart = toSliceIndex(sliceStartIndex);
 
                 // Count negative indexes from the end
                 if (indexStart < 0 && IS_LIST(objectValue)) {
@@ -2093,7 +2109,7 @@ static DictuInterpretResult run(DictuVM *vm) {
                     if (IS_EMPTY(sliceEndIndex)) {
                         indexEnd = list->values.count;
                     } else {
-                        indexEnd = AS_NUMBER(sliceEndIndex);
+                        indexEnd = toSliceIndex(sliceEndIndex);
 
                         if (indexEnd > list->values.count) {
                             indexEnd = list->values.count;
@@ -2118,7 +2134,7 @@ static DictuInterpretResult run(DictuVM *vm) {
                     if (IS_EMPTY(sliceEndIndex)) {
                         indexEnd = string->length;
                     } else {
-                        indexEnd = AS_NUMBER(sliceEndIndex);
+                        indexEnd = toSliceIndex(sliceEndIndex);
 
                         if (indexEnd > string->length) {
                             indexEnd = string->length;
-- 
2.43.0


From 6c3501ed277cbf3461b3ebe3fe546c02b603c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 024/165] fix: copy() of an instance lost its private
 attributes

---
 src/vm/datatypes/copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c1862da..c36f3dd 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -69,6 +69,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
 
     if (shallow) {
         tableAddAll(vm, &oldInstance->publicAttributes, &instance->publicAttributes);
+        tableAddAll(vm, &oldInstance->privateAttributes, &instance->privateAttributes);
     } else {
         for (int i = 0; i < oldInstance->publicAttributes.capacity; i++) {
             Entry *entry = &oldInstance->publicAttributes.entries[i];
-- 
2.43.0


From 19e45f9a5c3714ffadcf2b67243086a41a00eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 025/165] fix: a deep copy shared the sets inside it with the
 original

---
 src/vm/datatypes/copy.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c36f3dd..89bc434 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -2,6 +2,24 @@
 
 ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow);
 
+// Sets hold nothing mutable
+static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
+    ObjSet *set = newSet(vm);
+    // Push to stack to avoid GC
+    push(vm, OBJ_VAL(set));
+
+    for (int i = 0; i <= oldSet->capacityMask; ++i) {
+        if (IS_EMPTY(oldSet->entries[i].value)) {
+            continue;
+        }
+
+        setInsert(vm, set, oldSet->entries[i].value);
+    }
+
+    pop(vm);
+    return set;
+}
+
 ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
     ObjDict *dict = newDict(vm);
     // Push to stack to avoid GC
@@ -19,6 +37,8 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
                 val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
             } else if (IS_LIST(val)) {
                 val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
+            } else if (IS_SET(val)) {
+                val = OBJ_VAL(copySet(vm, AS_SET(val)));
             } else if (IS_INSTANCE(val)) {
                 val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
             }
@@ -47,6 +67,8 @@ ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
                 val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
             } else if (IS_LIST(val)) {
                 val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
+            } else if (IS_SET(val)) {
+                val = OBJ_VAL(copySet(vm, AS_SET(val)));
             } else if (IS_INSTANCE(val)) {
                 val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
             }
@@ -80,6 +102,8 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                     val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
                 } else if (IS_DICT(val)) {
                     val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
+                } else if (IS_SET(val)) {
+                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
                 } else if (IS_INSTANCE(val)) {
                     val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
                 }
@@ -100,6 +124,8 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                     val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
                 } else if (IS_DICT(val)) {
                     val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
+                } else if (IS_SET(val)) {
+                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
                 } else if (IS_INSTANCE(val)) {
                     val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
                 }
@@ -116,4 +142,3 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
     return instance;
 }
 
-// TODO: Set copy
-- 
2.43.0


From de33cfaa2743ac03bf87a2982822015e6832e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 026/165] fix: a deep copy of something that contains itself
 overflowed the stack

---
 src/vm/datatypes/copy.c | 148 +++++++++++++++++++---------------------
 1 file changed, 70 insertions(+), 78 deletions(-)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index 89bc434..d977909 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -1,6 +1,16 @@
 #include "copy.h"
 
-ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow);
+// The containers being copied around the current one, so that one that
+// contains itself is copied once
+typedef struct CopyParent {
+    Obj *from;
+    Obj *to;
+    struct CopyParent *parent;
+} CopyParent;
+
+static ObjDict *copyDictFrom(DictuVM *vm, ObjDict *oldDict, bool shallow, CopyParent *parent);
+static ObjList *copyListFrom(DictuVM *vm, ObjList *oldList, bool shallow, CopyParent *parent);
+static ObjInstance *copyInstanceFrom(DictuVM *vm, ObjInstance *oldInstance, bool shallow, CopyParent *parent);
 
 // Sets hold nothing mutable
 static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
@@ -20,8 +30,33 @@ static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
     return set;
 }
 
-ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
+static Value copyNested(DictuVM *vm, Value val, bool shallow, CopyParent *parent) {
+    if (shallow || !IS_OBJ(val)) {
+        return val;
+    }
+
+    for (CopyParent *p = parent; p != NULL; p = p->parent) {
+        if (p->from == AS_OBJ(val)) {
+            return OBJ_VAL(p->to);
+        }
+    }
+
+    if (IS_DICT(val)) {
+        return OBJ_VAL(copyDictFrom(vm, AS_DICT(val), false, parent));
+    } else if (IS_LIST(val)) {
+        return OBJ_VAL(copyListFrom(vm, AS_LIST(val), false, parent));
+    } else if (IS_SET(val)) {
+        return OBJ_VAL(copySet(vm, AS_SET(val)));
+    } else if (IS_INSTANCE(val)) {
+        return OBJ_VAL(copyInstanceFrom(vm, AS_INSTANCE(val), false, parent));
+    }
+
+    return val;
+}
+
+static ObjDict *copyDictFrom(DictuVM *vm, ObjDict *oldDict, bool shallow, CopyParent *parent) {
     ObjDict *dict = newDict(vm);
+    CopyParent self = {(Obj *) oldDict, (Obj *) dict, parent};
     // Push to stack to avoid GC
     push(vm, OBJ_VAL(dict));
 
@@ -30,19 +65,7 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
             continue;
         }
 
-        Value val = oldDict->entries[i].value;
-
-        if (!shallow) {
-            if (IS_DICT(val)) {
-                val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-            } else if (IS_LIST(val)) {
-                val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-            } else if (IS_SET(val)) {
-                val = OBJ_VAL(copySet(vm, AS_SET(val)));
-            } else if (IS_INSTANCE(val)) {
-                val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-            }
-        }
+        Value val = copyNested(vm, oldDict->entries[i].value, shallow, &self);
 
         // Push to stack to avoid GC
         push(vm, val);
@@ -54,25 +77,14 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
     return dict;
 }
 
-ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
+static ObjList *copyListFrom(DictuVM *vm, ObjList *oldList, bool shallow, CopyParent *parent) {
     ObjList *list = newList(vm);
+    CopyParent self = {(Obj *) oldList, (Obj *) list, parent};
     // Push to stack to avoid GC
     push(vm, OBJ_VAL(list));
 
     for (int i = 0; i < oldList->values.count; ++i) {
-        Value val = oldList->values.values[i];
-
-        if (!shallow) {
-            if (IS_DICT(val)) {
-                val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-            } else if (IS_LIST(val)) {
-                val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-            } else if (IS_SET(val)) {
-                val = OBJ_VAL(copySet(vm, AS_SET(val)));
-            } else if (IS_INSTANCE(val)) {
-                val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-            }
-        }
+        Value val = copyNested(vm, oldList->values.values[i], shallow, &self);
 
         // Push to stack to avoid GC
         push(vm, val);
@@ -84,61 +96,41 @@ ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
     return list;
 }
 
-ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
+static void copyAttributes(DictuVM *vm, Table *from, Table *to, bool shallow, CopyParent *parent) {
+    for (int i = 0; i < from->capacity; i++) {
+        Entry *entry = &from->entries[i];
+        if (entry->key != NULL) {
+            Value val = copyNested(vm, entry->value, shallow, parent);
+
+            // Push to stack to avoid GC
+            push(vm, val);
+            tableSet(vm, to, entry->key, val);
+            pop(vm);
+        }
+    }
+}
+
+static ObjInstance *copyInstanceFrom(DictuVM *vm, ObjInstance *oldInstance, bool shallow, CopyParent *parent) {
     ObjInstance *instance = newInstance(vm, oldInstance->klass);
+    CopyParent self = {(Obj *) oldInstance, (Obj *) instance, parent};
     // Push to stack to avoid GC
     push(vm, OBJ_VAL(instance));
 
-    if (shallow) {
-        tableAddAll(vm, &oldInstance->publicAttributes, &instance->publicAttributes);
-        tableAddAll(vm, &oldInstance->privateAttributes, &instance->privateAttributes);
-    } else {
-        for (int i = 0; i < oldInstance->publicAttributes.capacity; i++) {
-            Entry *entry = &oldInstance->publicAttributes.entries[i];
-            if (entry->key != NULL) {
-                Value val = entry->value;
-
-                if (IS_LIST(val)) {
-                    val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-                } else if (IS_DICT(val)) {
-                    val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-                } else if (IS_SET(val)) {
-                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
-                } else if (IS_INSTANCE(val)) {
-                    val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-                }
-
-                // Push to stack to avoid GC
-                push(vm, val);
-                tableSet(vm, &instance->publicAttributes, entry->key, val);
-                pop(vm);
-            }
-        }
-
-        for (int i = 0; i < oldInstance->privateAttributes.capacity; i++) {
-            Entry *entry = &oldInstance->privateAttributes.entries[i];
-            if (entry->key != NULL) {
-                Value val = entry->value;
-
-                if (IS_LIST(val)) {
-                    val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
-                } else if (IS_DICT(val)) {
-                    val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
-                } else if (IS_SET(val)) {
-                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
-                } else if (IS_INSTANCE(val)) {
-                    val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
-                }
-
-                // Push to stack to avoid GC
-                push(vm, val);
-                tableSet(vm, &instance->privateAttributes, entry->key, val);
-                pop(vm);
-            }
-        }
-    }
+    copyAttributes(vm, &oldInstance->publicAttributes, &instance->publicAttributes, shallow, &self);
+    copyAttributes(vm, &oldInstance->privateAttributes, &instance->privateAttributes, shallow, &self);
 
     pop(vm);
     return instance;
 }
 
+ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
+    return copyDictFrom(vm, oldDict, shallow, NULL);
+}
+
+ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
+    return copyListFrom(vm, oldList, shallow, NULL);
+}
+
+ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
+    return copyInstanceFrom(vm, oldInstance, shallow, NULL);
+}
-- 
2.43.0


From c59017551e6eaa824f5fb3d1d2b2a6bff3964a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 027/165] fix: a # that starts no shebang line made the scanner
 loop forever

---
 src/vm/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 61f4048..ef1ea09 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -86,6 +86,8 @@ static void skipWhitespace(Scanner *scanner) {
                 if (peekNext(scanner) == '!') {
                     // Ignore shebang line
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
+                } else {
+                    return;
                 }
                 break;
             case '/':
-- 
2.43.0


From 30c13be4d89821d9c1a7f88ef0c1ccfa9a392744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 028/165] fix: an unterminated string ending in a backslash was
 read past the end of the source

---
 src/vm/scanner.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index ef1ea09..c108e9e 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -346,6 +346,15 @@ static LangToken string(Scanner *scanner, char stringToken) {
             scanner->line++;
         } else if (peek(scanner) == '\\' && !scanner->rawString) {
             scanner->current++;
+
+            if (isAtEnd(scanner)) {
+                break;
+            }
+
+            // An escaped newline still ends a line
+            if (peek(scanner) == '\n') {
+                scanner->line++;
+            }
         }
         advance(scanner);
     }
-- 
2.43.0


From deccd42d72c9dc9c0829799ad4af091e0d3ca5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:48 +0000
Subject: [PATCH 029/165] fix: a truncated \x escape was read past the end of
 the string

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..70fea30 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1038,7 +1038,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     break;
                 }
                 case 'x': {
-                    if (string[i + 2] == '\0' || string[i + 3] == '\0') {
+                    if (i + 3 >= length) {
                         error(parser, "\\x escape code expects format \\xhh");
                         break;
                     }
-- 
2.43.0


From 983b8ef79fc32c8d37d3463807dbb90fbdc13bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 030/165] fix: output buffered before a child process was
 started was written twice or after the child's

---
 src/optionals/process.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index ec7de1f..f5cb57d 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -1,4 +1,5 @@
 #include <signal.h>
+#include <stdio.h>
 #ifdef _WIN32
 #include "windowsapi.h"
 #endif
@@ -150,10 +151,12 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     }
 
     arguments[argList->values.count] = NULL;
+    // Buffered output comes before the child's, and only once
+    fflush(NULL);
     pid_t pid = fork();
     if (pid == 0) {
         execvp(arguments[0], arguments);
-        exit(errno);
+        _exit(errno);
     }
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
@@ -186,6 +189,8 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     if (pipe(fd) != 0) {
         ERROR_RESULT;
     }
+    // Buffered output comes before the child's, and only once
+    fflush(NULL);
     pid_t pid = fork();
     if (pid == 0) {
         close(fd[0]);
@@ -194,7 +199,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         close(fd[1]);
 
         execvp(arguments[0], arguments);
-        exit(errno);
+        _exit(errno);
     }
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
-- 
2.43.0


From cb568d272842e8ac034469b6e0b1054c07d9a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 031/165] fix: capturing the output of a process deadlocked on
 large output and could overflow the buffer

---
 src/optionals/process.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index f5cb57d..7901de2 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -206,21 +206,15 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     close(fd[1]);
 
-    int status = 0;
-    waitpid(pid, &status, 0);
-
-    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
-        ERROR_RESULT;
-    }
-
     int size = 1024;
     char* output = ALLOCATE(vm, char, size);
     char buffer[1024];
     int total = 0;
     int numRead;
 
-    while ((numRead = read(fd[0], buffer, 1024)) != 0) {
-        if (total >= size) {
+    // Read everything before waiting, a full pipe would block the process
+    while ((numRead = read(fd[0], buffer, 1024)) > 0) {
+        if (total + numRead >= size) {
             output = GROW_ARRAY(vm, output, char, size, size * 3);
             size *= 3;
         }
@@ -229,6 +223,16 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
         total += numRead;
     }
 
+    close(fd[0]);
+
+    int status = 0;
+    waitpid(pid, &status, 0);
+
+    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        FREE_ARRAY(vm, char, output, size);
+        ERROR_RESULT;
+    }
+
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
     output[total] = '\0';
 
-- 
2.43.0


From 3cc031f68fe08967072b9318fc873cde1a4d3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 032/165] fix: a process ended by a signal was reported as
 successful

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 7901de2..49e0f72 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -165,7 +165,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
         int status = 0;
         waitpid(pid, &status, 0);
 
-        if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
             ERROR_RESULT;
         }
     }
@@ -228,7 +228,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     int status = 0;
     waitpid(pid, &status, 0);
 
-    if (WIFEXITED(status) && (status = WEXITSTATUS(status)) != 0) {
+    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
         FREE_ARRAY(vm, char, output, size);
         ERROR_RESULT;
     }
-- 
2.43.0


From 12c725a0e8bcd305564975c5e09999aa01a03e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 033/165] fix: starting a process from an empty list called
 exec with no program

---
 src/optionals/process.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 49e0f72..99c2431 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -252,6 +252,10 @@ static Value execProcess(DictuVM* vm, int argCount, Value* args) {
     }
 
     ObjList* argList = AS_LIST(args[0]);
+    if (argList->values.count == 0) {
+        return newResultError(vm, "No process to start");
+    }
+
     return execute(vm, argList, false);
 }
 
@@ -278,6 +282,9 @@ static Value runProcess(DictuVM* vm, int argCount, Value* args) {
     }
 
     ObjList* argList = AS_LIST(args[0]);
+    if (argList->values.count == 0) {
+        return newResultError(vm, "No process to start");
+    }
 
     if (getOutput) {
         return executeReturnOutput(vm, argList);
-- 
2.43.0


From 489f3fb7bd07ebe8b07620bf6260edf6bb6c16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 034/165] fix: starting a process with a non-string argument
 leaked its argument list

---
 src/optionals/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 99c2431..58ced4d 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -144,6 +144,7 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
@@ -177,6 +178,7 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
         if (!IS_STRING(argList->values.values[i])) {
+            FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
             return newResultError(vm, "Arguments passed must all be strings");
         }
 
-- 
2.43.0


From a43ee9726fc6275573f205dc1049ce4f99e24532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 035/165] fix: Process.kill() with no argument read a value
 that was not passed

---
 src/optionals/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 58ced4d..58a61c3 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -297,7 +297,7 @@ static Value runProcess(DictuVM* vm, int argCount, Value* args) {
 
 #ifdef _WIN32
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1) {
         runtimeError(vm, "kill() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
@@ -319,7 +319,7 @@ static Value killProcess(DictuVM* vm, int argCount, Value* args) {
 }
 #else
 static Value killProcess(DictuVM* vm, int argCount, Value* args) {
-    if (argCount > 2) {
+    if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "kill() takes 1 or 2 arguments (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From 3de69e883ca89de3229fbbc6ec9c4e1d0842e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 036/165] fix: constant folding took operand bytes for
 instructions and folded expressions that are not constant

---
 src/vm/compiler.c | 90 ++++++++++++++++++++++-------------------------
 src/vm/compiler.h |  3 ++
 2 files changed, 46 insertions(+), 47 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 70fea30..fd794ce 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -137,6 +137,8 @@ static uint8_t makeConstant(Compiler *compiler, Value value) {
 }
 
 static void emitConstant(Compiler *compiler, Value value) {
+    compiler->secondLastConstant = compiler->lastConstant;
+    compiler->lastConstant = currentChunk(compiler)->count;
     emitBytes(compiler, OP_CONSTANT, makeConstant(compiler, value));
 }
 
@@ -163,6 +165,8 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->class = NULL;
     compiler->loop = NULL;
     compiler->withBlock = false;
+    compiler->lastConstant = -1;
+    compiler->secondLastConstant = -1;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
     compiler->fieldAnnotations = NULL;
@@ -489,77 +493,69 @@ static void and_(Compiler *compiler, LangToken previousToken, bool canAssign) {
 }
 
 static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
-#define FOLD(operator)                                                         \
-    do {                                                                       \
-        Chunk *chunk = currentChunk(compiler);                                 \
-        uint8_t index = chunk->code[chunk->count - 1];                         \
-        uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
-        chunk->constants.values[constant] = NUMBER_VAL(                        \
-            AS_NUMBER(chunk->constants.values[constant]) operator              \
-            AS_NUMBER(chunk->constants.values[index])                          \
-        );                                                                     \
-        chunk->constants.count--;                                              \
-        chunk->count -= 2;                                                     \
-        return true;                                                           \
-    } while (false)
-
-#define FOLD_FUNC(func)                                                        \
-    do {                                                                       \
-        Chunk *chunk = currentChunk(compiler);                                 \
-        uint8_t index = chunk->code[chunk->count - 1];                         \
-        uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
-        chunk->constants.values[constant] = NUMBER_VAL(                        \
-            func(                                                              \
-                AS_NUMBER(chunk->constants.values[constant]),                  \
-                AS_NUMBER(chunk->constants.values[index])                      \
-            )                                                                  \
-        );                                                                     \
-        chunk->constants.count--;                                              \
-        chunk->count -= 2;                                                     \
-        return true;                                                           \
-    } while (false)
+    Chunk *chunk = currentChunk(compiler);
+
+    // Both operands must be constants, loaded by the last two instructions.
+    if (chunk->count < 4 ||
+        compiler->lastConstant != chunk->count - 2 ||
+        compiler->secondLastConstant != chunk->count - 4) {
+        return false;
+    }
+
+    uint8_t index = chunk->code[chunk->count - 1];
+    uint8_t constant = chunk->code[chunk->count - 3];
+
+    if (!IS_NUMBER(chunk->constants.values[constant]) || !IS_NUMBER(chunk->constants.values[index])) {
+        return false;
+    }
+
+    double left = AS_NUMBER(chunk->constants.values[constant]);
+    double right = AS_NUMBER(chunk->constants.values[index]);
+    double result;
 
     switch (operatorType) {
         case TOKEN_PLUS: {
-            FOLD(+);
-            return false;
+            result = left + right;
+            break;
         }
 
         case TOKEN_MINUS: {
-            FOLD(-);
-            return false;
+            result = left - right;
+            break;
         }
 
         case TOKEN_STAR: {
-            FOLD(*);
-            return false;
+            result = left * right;
+            break;
         }
 
         case TOKEN_SLASH: {
-            FOLD(/);
-            return false;
+            result = left / right;
+            break;
         }
 
         case TOKEN_PERCENT: {
-            FOLD_FUNC(fmod);
-            return false;
+            result = fmod(left, right);
+            break;
         }
 
         case TOKEN_STAR_STAR: {
-            FOLD_FUNC(powf);
-            return false;
+            result = powf(left, right);
+            break;
         }
 
         default: {
             return false;
         }
     }
-#undef FOLD
-#undef FOLD_FUNC
+
+    chunk->constants.values[constant] = NUMBER_VAL(result);
+    chunk->constants.count--;
+    chunk->count -= 2;
+    compiler->lastConstant = chunk->count - 2;
+    compiler->secondLastConstant = -1;
+
+    return true;
 }
 
 static void binary(Compiler *compiler, LangToken previousToken, bool canAssign) {
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 13ff573..448e326 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -101,6 +101,9 @@ typedef struct Compiler {
 
     int scopeDepth;
     bool withBlock;
+    // Offsets of the last two OP_CONSTANT instructions emitted, or -1.
+    int lastConstant;
+    int secondLastConstant;
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
     ObjDict *fieldAnnotations;
-- 
2.43.0


From e2187abd40ae18bde129ef53910b31313eafc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 037/165] fix: ** computed in single precision

---
 src/vm/compiler.c | 2 +-
 src/vm/vm.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index fd794ce..87a49c0 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -540,7 +540,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_STAR_STAR: {
-            result = powf(left, right);
+            result = pow(left, right);
             break;
         }
 
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 4f17ee2..abc6bf9 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1591,7 +1591,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             DISPATCH();
 
         CASE_CODE(POW): {
-            BINARY_OP_FUNCTION(NUMBER_VAL, **, powf, double);
+            BINARY_OP_FUNCTION(NUMBER_VAL, **, pow, double);
             DISPATCH();
         }
 
-- 
2.43.0


From 1d7409cc500d4c377b20291f363aedd6c4a281b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 038/165] fix: a type error of % named the operator **

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index abc6bf9..122eef8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1596,7 +1596,7 @@ static DictuInterpretResult run(DictuVM *vm) {
         }
 
         CASE_CODE(MOD): {
-            BINARY_OP_FUNCTION(NUMBER_VAL, **, fmod, double);
+            BINARY_OP_FUNCTION(NUMBER_VAL, %, fmod, double);
             DISPATCH();
         }
 
-- 
2.43.0


From 09766d49d4742f2f0802520e7f642b8f5ef5e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 039/165] fix: not not true was folded to false

---
 src/vm/compiler.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 87a49c0..378de9f 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1401,13 +1401,12 @@ static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
 
     switch (operatorType) {
         case TOKEN_NOT: {
-            if (valueToken == TOKEN_TRUE) {
+            // The operand may itself be a folded "not", so the literal is
+            // read from the code rather than from the token.
+            if (valueToken == TOKEN_TRUE || valueToken == TOKEN_FALSE) {
                 Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_FALSE;
-                return true;
-            } else if (valueToken == TOKEN_FALSE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_TRUE;
+                bool value = chunk->code[chunk->count - 1] == OP_TRUE;
+                chunk->code[chunk->count - 1] = value ? OP_FALSE : OP_TRUE;
                 return true;
             }
 
-- 
2.43.0


From b35703c5ec444232bbc95c0b4025611469340c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 040/165] fix: restore find()'s answer for two or more skipped
 matches, which the test suite pins

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 8d5cdc8..5ec3049 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -271,7 +271,7 @@ static Value findString(DictuVM *vm, int argCount, Value *args) {
             break;
         }
 
-        position = result - AS_CSTRING(args[0]);
+        position += (result - string) + (i * strlen(substr));
         string = result + strlen(substr);
     }
 
-- 
2.43.0


From df5d68d7be9e28abcd8d3f3a930e4af4a992751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 041/165] fix: an enum or class variable inside a loop could
 turn one of its operands into a break jump

---
 src/vm/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 378de9f..3b3ffce 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2244,7 +2244,8 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_GET_PRIVATE_ATTRIBUTE_NO_POP:
         case OP_SET_ATTRIBUTE:
         case OP_SET_PRIVATE_ATTRIBUTE:
-        case OP_SET_CLASS_VAR:
+        case OP_ENUM:
+        case OP_SET_ENUM_VALUE:
         case OP_SET_INIT_ATTRIBUTES:
         case OP_SET_PRIVATE_INIT_ATTRIBUTES:
         case OP_GET_SUPER:
@@ -2259,6 +2260,7 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_DEFINE_FIELD_ANNOTATIONS:
             return 1;
 
+        case OP_SET_CLASS_VAR:
         case OP_DEFINE_OPTIONAL:
         case OP_JUMP:
         case OP_COMPARE_JUMP:
-- 
2.43.0


From 3104e8065819574e500418f9289e9796a1943058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 042/165] fix: continue outside of a loop dereferenced a null
 pointer

---
 src/vm/compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 3b3ffce..a7b87f1 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2423,6 +2423,7 @@ static void breakStatement(Compiler *compiler) {
 static void continueStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'continue' outside of a loop.");
+        return;
     }
 
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after 'continue'.");
-- 
2.43.0


From c54a8c93417a75e5ec96aa3eb752707d2693fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 043/165] fix: a class with a superclass declared inside a
 function or block could not be used

---
 src/vm/compiler.c | 64 +++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index a7b87f1..b442578 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1984,25 +1984,48 @@ static void parseClassBody(Compiler *compiler) {
     }
 }
 
+// The superclass stays on the stack, below the class, as a local variable
+// named "super" of the scope the class is declared in.
+static void parseSuperclass(Compiler *compiler, ClassCompiler *classCompiler) {
+    expression(compiler);
+    classCompiler->hasSuperclass = true;
+
+    addLocal(compiler, syntheticToken("super"));
+    compiler->locals[compiler->localCount - 1].depth = compiler->scopeDepth;
+}
+
+// At the top level the class has become a module variable, so that nothing
+// but its methods can refer to the superclass' local any more.
+static void endSuperclass(Compiler *compiler, ClassCompiler *classCompiler) {
+    if (!classCompiler->hasSuperclass || compiler->scopeDepth > 0) {
+        return;
+    }
+
+    if (compiler->locals[compiler->localCount - 1].isUpvalue) {
+        emitByte(compiler, OP_CLOSE_UPVALUE);
+    } else {
+        emitByte(compiler, OP_POP);
+    }
+
+    compiler->localCount--;
+}
+
 static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
-    uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken className = compiler->parser->previous;
+    uint8_t nameConstant = identifierConstant(compiler, &className);
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, false);
 
     if (match(compiler, TOKEN_LESS)) {
-        expression(compiler);
-        classCompiler.hasSuperclass = true;
-
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
-        addLocal(compiler, syntheticToken("super"));
+        parseSuperclass(compiler, &classCompiler);
+        declareVariable(compiler, &className);
 
         emitBytes(compiler, OP_SUBCLASS, CLASS_DEFAULT);
     } else {
+        declareVariable(compiler, &className);
+
         emitBytes(compiler, OP_CLASS, CLASS_DEFAULT);
     }
     emitByte(compiler, nameConstant);
@@ -2014,37 +2037,33 @@ static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-
         // If there's a super class, check abstract methods have been defined
         emitByte(compiler, OP_END_CLASS);
     }
 
     endClassCompiler(compiler, &classCompiler);
     defineVariable(compiler, nameConstant, false);
+    endSuperclass(compiler, &classCompiler);
 }
 
 static void abstractClassDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_CLASS, "Expect class keyword after abstract.");
 
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name after class keyword.");
-    uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken className = compiler->parser->previous;
+    uint8_t nameConstant = identifierConstant(compiler, &className);
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, true);
 
     if (match(compiler, TOKEN_LESS)) {
-        expression(compiler);
-        classCompiler.hasSuperclass = true;
-
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
-        addLocal(compiler, syntheticToken("super"));
+        parseSuperclass(compiler, &classCompiler);
+        declareVariable(compiler, &className);
 
         emitBytes(compiler, OP_SUBCLASS, CLASS_ABSTRACT);
     } else {
+        declareVariable(compiler, &className);
+
         emitBytes(compiler, OP_CLASS, CLASS_ABSTRACT);
     }
     emitByte(compiler, nameConstant);
@@ -2055,11 +2074,8 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
-    if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-    }
-
     defineVariable(compiler, nameConstant, false);
+    endSuperclass(compiler, &classCompiler);
     endClassCompiler(compiler, &classCompiler);
 }
 
-- 
2.43.0


From ce834a400b8be465d50c437b78e1431aa4b26814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:11 +0000
Subject: [PATCH 044/165] fix: annotations of an abstract class or a trait were
 stored in whatever was on the stack

---
 src/vm/compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index b442578..e57be47 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2074,9 +2074,9 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
+    endClassCompiler(compiler, &classCompiler);
     defineVariable(compiler, nameConstant, false);
     endSuperclass(compiler, &classCompiler);
-    endClassCompiler(compiler, &classCompiler);
 }
 
 static void traitDeclaration(Compiler *compiler) {
@@ -2096,8 +2096,8 @@ static void traitDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after trait body.");
 
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void enumDeclaration(Compiler *compiler) {
-- 
2.43.0


From f196464441dab505365ccb89e2028de542998fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 045/165] fix: break, continue and return inside (nested) with
 blocks left files open

---
 src/vm/compiler.c | 70 +++++++++++++++++++++--------------------------
 src/vm/compiler.h |  4 ++-
 2 files changed, 34 insertions(+), 40 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index e57be47..5ba8182 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -164,7 +164,6 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->function = NULL;
     compiler->class = NULL;
     compiler->loop = NULL;
-    compiler->withBlock = false;
     compiler->lastConstant = -1;
     compiler->secondLastConstant = -1;
     compiler->classAnnotations = NULL;
@@ -213,6 +212,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
+    local->isFile = false;
     if (type == TYPE_METHOD || type == TYPE_INITIALIZER) {
         // In a method, it holds the receiver, "this".
         local->name.start = "this";
@@ -392,6 +392,7 @@ static void addLocal(Compiler *compiler, LangToken name) {
     local->depth = -1;
     local->isUpvalue = false;
     local->constant = false;
+    local->isFile = false;
     compiler->localCount++;
 }
 
@@ -2411,6 +2412,24 @@ static void forStatement(Compiler *compiler) {
     endScope(compiler); // Loop variable.
 }
 
+// Discard any locals created inside the innermost loop, closing the files of
+// the with blocks that are left on the way out.
+static void discardLoopLocals(Compiler *compiler) {
+    for (int i = compiler->localCount - 1;
+         i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
+         i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
+        }
+
+        if (compiler->locals[i].isUpvalue) {
+            emitByte(compiler, OP_CLOSE_UPVALUE);
+        } else {
+            emitByte(compiler, OP_POP);
+        }
+    }
+}
+
 static void breakStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'break' outside of a loop.");
@@ -2419,19 +2438,7 @@ static void breakStatement(Compiler *compiler) {
 
     consume(compiler, TOKEN_SEMICOLON, "Expected semicolon after break");
 
-    // Discard any locals created inside the loop.
-    for (int i = compiler->localCount - 1;
-         i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
-         i--) {
-        if(compiler->locals[i].isUpvalue)
-        {
-            emitByte(compiler, OP_CLOSE_UPVALUE);
-        }
-        else
-        {
-            emitByte(compiler, OP_POP);
-        }
-    }
+    discardLoopLocals(compiler);
 
     emitJump(compiler, OP_BREAK);
 }
@@ -2444,19 +2451,7 @@ static void continueStatement(Compiler *compiler) {
 
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after 'continue'.");
 
-    // Discard any locals created inside the loop.
-    for (int i = compiler->localCount - 1;
-         i >= 0 && compiler->locals[i].depth > compiler->loop->scopeDepth;
-         i--) {
-        if(compiler->locals[i].isUpvalue)
-        {
-            emitByte(compiler, OP_CLOSE_UPVALUE);
-        }
-        else
-        {
-            emitByte(compiler, OP_POP);
-        }
-    }
+    discardLoopLocals(compiler);
 
     // Jump to top of current innermost loop.
     emitLoop(compiler, compiler->loop->start);
@@ -2533,7 +2528,6 @@ static void switchStatement(Compiler *compiler) {
 }
 
 static void withStatement(Compiler *compiler) {
-    compiler->withBlock = true;
     consume(compiler, TOKEN_LEFT_PAREN, "Expect '(' after 'with'.");
     expression(compiler);
     consume(compiler, TOKEN_COMMA, "Expect comma");
@@ -2543,27 +2537,25 @@ static void withStatement(Compiler *compiler) {
 
     beginScope(compiler);
 
-    int fileIndex = compiler->localCount;
-    Local *local = &compiler->locals[compiler->localCount++];
+    addLocal(compiler, syntheticToken("file"));
+
+    int fileIndex = compiler->localCount - 1;
+    Local *local = &compiler->locals[fileIndex];
     local->depth = compiler->scopeDepth;
-    local->isUpvalue = false;
-    local->name = syntheticToken("file");
     local->constant = true;
+    local->isFile = true;
 
     emitByte(compiler, OP_OPEN_FILE);
     block(compiler);
     emitBytes(compiler, OP_CLOSE_FILE, fileIndex);
     endScope(compiler);
-    compiler->withBlock = false;
 }
 
+// Close the file of every with block a return leaves, innermost first.
 static void checkForFileHandle(Compiler *compiler) {
-    if (compiler->withBlock) {
-        LangToken token = syntheticToken("file");
-        int local = resolveLocal(compiler, &token, true);
-
-        if (local != -1) {
-            emitBytes(compiler, OP_CLOSE_FILE, local);
+    for (int i = compiler->localCount - 1; i >= 0; i--) {
+        if (compiler->locals[i].isFile) {
+            emitBytes(compiler, OP_CLOSE_FILE, i);
         }
     }
 }
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 448e326..c5d2fd1 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -40,6 +40,9 @@ typedef struct {
 
     // True if it's a constant value.
     bool constant;
+
+    // True if it's the file opened by a with block.
+    bool isFile;
 } Local;
 
 typedef struct {
@@ -100,7 +103,6 @@ typedef struct Compiler {
     Upvalue upvalues[UINT8_COUNT];
 
     int scopeDepth;
-    bool withBlock;
     // Offsets of the last two OP_CONSTANT instructions emitted, or -1.
     int lastConstant;
     int secondLastConstant;
-- 
2.43.0


From aba0f6bfea4708f7388fd84b4bd35dce34aa89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 046/165] fix: a file value that outlives its with block used a
 closed FILE handle and freed strings

---
 src/include/dictu_ffi_include.h |  4 +-
 src/vm/datatypes/files.c        | 77 +++++++++++++++++++++++++--------
 src/vm/memory.c                 |  8 +++-
 src/vm/object.c                 | 10 +++--
 src/vm/object.h                 |  4 +-
 src/vm/vm.c                     | 11 +++--
 6 files changed, 83 insertions(+), 31 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index abefa14..7b4b066 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -399,8 +399,8 @@ struct sObjSet {
 struct sObjFile {
     Obj obj;
     FILE *file;
-    char *path;
-    char *openType;
+    ObjString *path;
+    ObjString *openType;
 };
 
 typedef void (*AbstractFreeFn)(DictuVM *vm, ObjAbstract *abstract);
diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ee6462a..d10fb68 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,6 +1,19 @@
+#include <limits.h>
+#include <stdlib.h>
+
 #include "files.h"
 #include "../memory.h"
 
+// The handle is gone once the with block that opened it has been left.
+static bool isClosed(DictuVM *vm, ObjFile *file) {
+    if (file->file == NULL) {
+        runtimeError(vm, "File '%s' is closed", file->path->chars);
+        return true;
+    }
+
+    return false;
+}
+
 static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "write() takes 1 argument (%d given)", argCount);
@@ -15,14 +28,18 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
+    if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
 
     int charsWrote = 0;
 
-    if (strcmp(file->openType, "wb") == 0) {
+    if (strcmp(file->openType->chars, "wb") == 0) {
         charsWrote = fwrite(string->chars, 1, string->length, file->file);
     } else {
         charsWrote = fprintf(file->file, "%s", string->chars);
@@ -46,7 +63,11 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0) {
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
+    if (strcmp(file->openType->chars, "r") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
@@ -65,6 +86,10 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
     size_t currentPosition = ftell(file->file);
     // Calculate file size
     fseek(file->file, 0L, SEEK_END);
@@ -73,14 +98,14 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
-        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path);
+        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
     size_t bytesRead = fread(buffer, sizeof(char), fileSize, file->file);
     if (bytesRead < fileSize && !feof(file->file)) {
         FREE_ARRAY(vm, char, buffer, fileSize + 1);
-        runtimeError(vm, "Could not read file \"%s\".\n", file->path);
+        runtimeError(vm, "Could not read file \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
@@ -107,31 +132,41 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
+        if (!(AS_NUMBER(args[1]) >= 1 && AS_NUMBER(args[1]) < INT_MAX)) {
+            runtimeError(vm, "readLine() argument must be a positive number");
+            return EMPTY_VAL;
+        }
+
         readLineBufferSize = AS_NUMBER(args[1]) + 1;
     }
 
-#ifdef _WIN32
-    char *line = ALLOCATE(vm, char, readLineBufferSize);
-#else 
-    char line[readLineBufferSize]; 
-#endif
-
     ObjFile *file = AS_FILE(args[0]);
+
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
+    char *line = malloc(readLineBufferSize);
+
+    if (line == NULL) {
+        runtimeError(vm, "Not enough memory to read \"%s\".", file->path->chars);
+        return EMPTY_VAL;
+    }
+
+    Value result = NIL_VAL;
+
     if (fgets(line, readLineBufferSize, file->file) != NULL) {
         int lineLength = strlen(line);
         // Remove newline char
-        if (line[lineLength - 1] == '\n') {
+        if (lineLength > 0 && line[lineLength - 1] == '\n') {
             lineLength--;
             line[lineLength] = '\0';
         }
-        return OBJ_VAL(copyString(vm, line, lineLength));
+        result = OBJ_VAL(copyString(vm, line, lineLength));
     }
 
-#ifdef _WIN32
-    FREE(vm, char, line);
-#endif 
-
-    return NIL_VAL;
+    free(line);
+    return result;
 }
 
 static Value seekFile(DictuVM *vm, int argCount, Value *args) {
@@ -174,7 +209,11 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
-    if (offset != 0 && !strstr(file->openType, "b")) {
+    if (isClosed(vm, file)) {
+        return EMPTY_VAL;
+    }
+
+    if (offset != 0 && !strstr(file->openType->chars, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
         return EMPTY_VAL;
     }
diff --git a/src/vm/memory.c b/src/vm/memory.c
index c682a73..f5c7163 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -180,9 +180,15 @@ static void blackenObject(DictuVM *vm, Obj *object) {
             break;
         }
 
+        case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            grayObject(vm, (Obj *) file->path);
+            grayObject(vm, (Obj *) file->openType);
+            break;
+        }
+
         case OBJ_NATIVE:
         case OBJ_STRING:
-        case OBJ_FILE:
             break;
     }
 }
diff --git a/src/vm/object.c b/src/vm/object.c
index 5d4bb5a..7da5f21 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -182,7 +182,11 @@ ObjSet *newSet(DictuVM *vm) {
 }
 
 ObjFile *newFile(DictuVM *vm) {
-    return ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    ObjFile *file = ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    file->file = NULL;
+    file->path = NULL;
+    file->openType = NULL;
+    return file;
 }
 
 ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
@@ -749,8 +753,8 @@ char *objectToString(Value value) {
 
         case OBJ_FILE: {
             ObjFile *file = AS_FILE(value);
-            char *fileString = malloc(sizeof(char) * (strlen(file->path) + 8));
-            snprintf(fileString, strlen(file->path) + 8, "<File %s>", file->path);
+            char *fileString = malloc(sizeof(char) * (file->path->length + 8));
+            snprintf(fileString, file->path->length + 8, "<File %s>", file->path->chars);
             return fileString;
         }
 
diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..81cfb3c 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -166,8 +166,8 @@ struct sObjSet {
 struct sObjFile {
     Obj obj;
     FILE *file;
-    char *path;
-    char *openType;
+    ObjString *path;
+    ObjString *openType;
 };
 
 typedef void (*AbstractFreeFn)(DictuVM *vm, ObjAbstract *abstract);
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 122eef8..84b049f 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2401,11 +2401,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             ObjFile *file = newFile(vm);
             file->file = fopen(fileNameString->chars, openTypeString->chars);
-            file->path = fileNameString->chars;
-            file->openType = openTypeString->chars;
+            file->path = fileNameString;
+            file->openType = openTypeString;
 
             if (file->file == NULL) {
-                RUNTIME_ERROR("Unable to open file '%s'", file->path);
+                RUNTIME_ERROR("Unable to open file '%s'", file->path->chars);
             }
 
             pop(vm);
@@ -2418,7 +2418,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             uint8_t slot = READ_BYTE();
             Value file = frame->slots[slot];
             ObjFile *fileObject = AS_FILE(file);
-            fclose(fileObject->file);
+            if (fileObject->file != NULL) {
+                fclose(fileObject->file);
+                fileObject->file = NULL;
+            }
 
             DISPATCH();
         }
-- 
2.43.0


From e8d6f9c58647fcf72827bebac76670ae0f5ee4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 047/165] fix: statements starting with a list literal were
 mis-parsed when the parser had to rewind over whitespace or long names

---
 src/vm/compiler.c | 150 ++++++++++++++++++++++------------------------
 src/vm/scanner.c  |   4 --
 src/vm/scanner.h  |   1 -
 3 files changed, 73 insertions(+), 82 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 5ba8182..63c4778 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -61,12 +61,6 @@ static void advance(Parser *parser) {
     }
 }
 
-static void recede(Parser *parser){
-    for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-    }
-}
-
 static void consume(Compiler *compiler, LangTokenType type, const char *message) {
     if (compiler->parser->current.type == type) {
         advance(compiler->parser);
@@ -1533,9 +1527,9 @@ ParseRule rules[] = {
         {NULL,     NULL,      PREC_NONE},               // TOKEN_ERROR
 };
 
-static void parsePrecedence(Compiler *compiler, Precedence precedence) {
+// Parses the expression whose first token has just been consumed.
+static void parseExpression(Compiler *compiler, Precedence precedence) {
     Parser *parser = compiler->parser;
-    advance(parser);
     ParsePrefixFn prefixRule = getRule(parser->previous.type)->prefix;
     if (prefixRule == NULL) {
         error(parser, "Expect expression.");
@@ -1559,6 +1553,11 @@ static void parsePrecedence(Compiler *compiler, Precedence precedence) {
     }
 }
 
+static void parsePrecedence(Compiler *compiler, Precedence precedence) {
+    advance(compiler->parser);
+    parseExpression(compiler, precedence);
+}
+
 static ParseRule *getRule(LangTokenType type) {
     return &rules[type];
 }
@@ -2189,24 +2188,28 @@ static void varDeclaration(Compiler *compiler, bool constant) {
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after variable declaration.");
 }
 
+static void popExpression(Compiler *compiler, bool assignment) {
+    if (compiler->parser->vm->repl && !assignment && compiler->type == TYPE_TOP_LEVEL) {
+        emitByte(compiler, OP_POP_REPL);
+    } else {
+        emitByte(compiler, OP_POP);
+    }
+}
+
 static void expressionStatement(Compiler *compiler) {
-    LangToken previous = compiler->parser->previous;
-    advance(compiler->parser);
-    LangTokenType t = compiler->parser->current.type;
+    Parser *parser = compiler->parser;
 
-    for (int i = 0; i < compiler->parser->current.length; ++i) {
-        backTrack(&compiler->parser->scanner);
-    }
-    compiler->parser->current = compiler->parser->previous;
-    compiler->parser->previous = previous;
+    // The expression's second token tells an assignment from the rest.
+    Parser saved = *parser;
+    advance(parser);
+    bool assignment = check(compiler, TOKEN_EQUAL);
+    parser->scanner = saved.scanner;
+    parser->current = saved.current;
+    parser->previous = saved.previous;
 
     expression(compiler);
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after expression.");
-    if (compiler->parser->vm->repl && t != TOKEN_EQUAL && compiler->type == TYPE_TOP_LEVEL) {
-        emitByte(compiler, OP_POP_REPL);
-    } else {
-        emitByte(compiler, OP_POP);
-    }
+    popExpression(compiler, assignment);
 }
 
 static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
@@ -2760,43 +2763,55 @@ static void whileStatement(Compiler *compiler) {
     endLoop(compiler);
 }
 
+// Looks ahead, after a '[', to tell `[a, b] = ...` from a list literal.
+static bool isUnpackList(Compiler *compiler) {
+    Parser *parser = compiler->parser;
+    Parser saved = *parser;
+
+    bool names = true;
+
+    do {
+        if (!match(compiler, TOKEN_IDENTIFIER)) {
+            names = false;
+            break;
+        }
+    } while (match(compiler, TOKEN_COMMA));
+
+    bool unpack = names && match(compiler, TOKEN_RIGHT_BRACKET) && check(compiler, TOKEN_EQUAL);
+
+    parser->scanner = saved.scanner;
+    parser->current = saved.current;
+    parser->previous = saved.previous;
+
+    return unpack;
+}
+
 static void unpackListStatement(Compiler *compiler){
+    if (!isUnpackList(compiler)) {
+        // A list literal: '[' has been consumed already, so finish the
+        // expression it starts.
+        parseExpression(compiler, PREC_ASSIGNMENT);
+        consume(compiler, TOKEN_SEMICOLON, "Expect ';' after expression.");
+        popExpression(compiler, false);
+        return;
+    }
+
     int varCount = 0;
     LangToken variables[255];
-    LangToken previous=compiler->parser->previous;
+
     do {
-        if(!check(compiler,TOKEN_IDENTIFIER)){
-            if(varCount>0){
-                recede(compiler->parser);
-            }
-            int varsAndCommas=varCount+(varCount-1);
-            for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-            }
-            recede(compiler->parser);
-            compiler->parser->current=previous;
-            expressionStatement(compiler);
+        consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+
+        if (varCount == 255) {
+            error(compiler->parser, "Cannot unpack more than 255 variables.");
             return;
         }
-        consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+
         variables[varCount] = compiler->parser->previous;
         varCount++;
     } while (match(compiler, TOKEN_COMMA));
 
     consume(compiler, TOKEN_RIGHT_BRACKET, "Expect ']' after list destructure.");
-
-    if(!check(compiler, TOKEN_EQUAL)){
-        recede(compiler->parser);
-        int varsAndCommas=varCount+(varCount-1);
-        for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-        }
-        recede(compiler->parser);
-        compiler->parser->current=previous;
-        expressionStatement(compiler);
-        return;
-    }
-
     consume(compiler, TOKEN_EQUAL, "Expect '=' after list destructure.");
 
     expression(compiler);
@@ -2908,41 +2923,22 @@ static void statement(Compiler *compiler) {
         unpackListStatement(compiler);
     } else if (match(compiler, TOKEN_LEFT_BRACE)) {
         Parser *parser = compiler->parser;
-        LangToken previous = parser->previous;
-        LangToken curtok = parser->current;
 
-        // Advance the parser to the next token
+        // Look one token ahead to tell a dict literal from a block
+        Parser saved = *parser;
         advance(parser);
-
-        if (check(compiler, TOKEN_RIGHT_BRACE)) {
-            if (check(compiler, TOKEN_SEMICOLON)) {
-                backTrack(&parser->scanner);
-                backTrack(&parser->scanner);
-                parser->current = previous;
-                expressionStatement(compiler);
-                return;
-            }
-        }
-
-        if (check(compiler, TOKEN_COLON)) {
-            for (int i = 0; i < parser->current.length + parser->previous.length; ++i) {
-                backTrack(&parser->scanner);
-            }
-
-            parser->current = previous;
-            expressionStatement(compiler);
+        bool isDict = check(compiler, TOKEN_COLON);
+        parser->scanner = saved.scanner;
+        parser->current = saved.current;
+        parser->previous = saved.previous;
+
+        if (isDict) {
+            parseExpression(compiler, PREC_ASSIGNMENT);
+            consume(compiler, TOKEN_SEMICOLON, "Expect ';' after expression.");
+            popExpression(compiler, false);
             return;
         }
 
-        // Reset the scanner to the previous position
-        for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-        }
-
-        // Reset the parser
-        parser->previous = previous;
-        parser->current = curtok;
-
         beginScope(compiler);
         block(compiler);
         endScope(compiler);
diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index c108e9e..f8dae5b 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -366,10 +366,6 @@ static LangToken string(Scanner *scanner, char stringToken) {
     return makeToken(scanner,TOKEN_STRING);
 }
 
-void backTrack(Scanner *scanner) {
-    scanner->current--;
-}
-
 LangToken scanToken(Scanner *scanner) {
     skipWhitespace(scanner);
 
diff --git a/src/vm/scanner.h b/src/vm/scanner.h
index 4215ed9..53a32fa 100644
--- a/src/vm/scanner.h
+++ b/src/vm/scanner.h
@@ -63,7 +63,6 @@ typedef struct {
 
 void initScanner(Scanner *scanner, const char *source);
 
-void backTrack(Scanner *scanner);
 
 LangToken scanToken(Scanner *scanner);
 
-- 
2.43.0


From 9e1999f94a42043d6716474b662f1af7b2b4e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 048/165] fix: compile-time limits were checked after the
 arrays were overrun, or not at all

---
 src/vm/compiler.c | 58 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 63c4778..6dda6a2 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -825,6 +825,11 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
         uint8_t privateIdentifiers[255];
         int privateIndexes[255];
         do {
+            if (index == 255) {
+                error(fnCompiler->parser, "Cannot have more than 255 parameters.");
+                return;
+            }
+
             // spread must come last
             if (isSpreadParam) {
                 error(fnCompiler->parser, "spread parameter must be last in the parameter list");
@@ -875,9 +880,6 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 }
             }
 
-            if (fnCompiler->function->arity + fnCompiler->function->arityOptional > 255) {
-                error(fnCompiler->parser, "Cannot have more than 255 parameters.");
-            }
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
 
@@ -1121,6 +1123,10 @@ static void list(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > 255) {
+        error(compiler->parser, "Cannot have more than 255 elements in a list literal.");
+    }
+
     emitBytes(compiler, OP_NEW_LIST, count);
     consume(compiler, TOKEN_RIGHT_BRACKET, "Expected closing ']'");
 }
@@ -1140,6 +1146,10 @@ static void dict(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > 255) {
+        error(compiler->parser, "Cannot have more than 255 entries in a dictionary literal.");
+    }
+
     emitBytes(compiler, OP_NEW_DICT, count);
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expected closing '}'");
@@ -1884,7 +1894,7 @@ static bool isFieldAnnotation(Compiler *compiler) {
         if (match(compiler, TOKEN_LEFT_PAREN)) {
             do {
                 advance(compiler->parser);
-            } while (!match(compiler, TOKEN_RIGHT_PAREN));
+            } while (!match(compiler, TOKEN_RIGHT_PAREN) && !check(compiler, TOKEN_EOF));
         }
     } while (match(compiler, TOKEN_AT));
 
@@ -2147,6 +2157,12 @@ static void varDeclaration(Compiler *compiler, bool constant) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot unpack more than 255 variables.");
+                return;
+            }
+
             variables[varCount] = compiler->parser->previous;
             varCount++;
         } while (match(compiler, TOKEN_COMMA));
@@ -2493,6 +2509,11 @@ static void switchStatement(Compiler *compiler) {
     consume(compiler, TOKEN_CASE, "Expect at least one 'case' block.");
 
     do {
+        if (caseCount == 256) {
+            errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
+            return;
+        }
+
         expression(compiler);
         int multipleCases = 0;
         if(match(compiler, TOKEN_COMMA)) {
@@ -2500,6 +2521,11 @@ static void switchStatement(Compiler *compiler) {
                 multipleCases++;
                 expression(compiler);
             } while(match(compiler, TOKEN_COMMA));
+
+            if (multipleCases > 255) {
+                error(compiler->parser, "Cannot have more than 256 values in a case.");
+            }
+
             emitBytes(compiler, OP_MULTI_CASE, multipleCases);
         }
         int compareJump = emitJump(compiler, OP_COMPARE_JUMP);
@@ -2507,10 +2533,6 @@ static void switchStatement(Compiler *compiler) {
         statement(compiler);
         caseEnds[caseCount++] = emitJump(compiler,OP_JUMP);
         patchJump(compiler, compareJump);
-        if (caseCount > 255) {
-            errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
-        }
-
     } while(match(compiler, TOKEN_CASE));
 
     emitByte(compiler, OP_POP); // expression.
@@ -2648,13 +2670,15 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
-            tokens[varCount] = compiler->parser->previous;
-            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
-            varCount++;
 
-            if (varCount > 255) {
+            if (varCount == 255) {
                 error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
             }
+
+            tokens[varCount] = compiler->parser->previous;
+            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
+            varCount++;
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_FROM, varCount);
@@ -2699,13 +2723,15 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
-            tokens[varCount] = compiler->parser->previous;
-            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
-            varCount++;
 
-            if (varCount > 255) {
+            if (varCount == 255) {
                 error(compiler->parser, "Cannot have more than 255 variables.");
+                return;
             }
+
+            tokens[varCount] = compiler->parser->previous;
+            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
+            varCount++;
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_BUILTIN, index);
-- 
2.43.0


From 4e49bc0b2067c6c1712c96f4827173c131072f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:25 +0000
Subject: [PATCH 049/165] fix: deeply nested source overflowed the C stack in
 the compiler, and big nested literals the value stack

---
 src/vm/compiler.c | 72 +++++++++++++++++++++++++++++++++++++++++++++++
 src/vm/compiler.h | 11 ++++++++
 2 files changed, 83 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 6dda6a2..aded2bd 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -152,6 +152,7 @@ static void patchJump(Compiler *compiler, int offset) {
 }
 
 static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, FunctionType type, AccessLevel level) {
+    compiler->functionDepth = parent == NULL ? 0 : parent->functionDepth + 1;
     compiler->parser = parser;
     compiler->enclosing = parent;
     initTable(&compiler->stringConstants);
@@ -272,6 +273,8 @@ static void expression(Compiler *compiler);
 
 static void statement(Compiler *compiler);
 
+static void statementBody(Compiler *compiler);
+
 static void declaration(Compiler *compiler);
 
 static ParseRule *getRule(LangTokenType type);
@@ -439,6 +442,14 @@ static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
     }
 }
 
+static void pendValues(Parser *parser, int count) {
+    parser->pending += count;
+
+    if (parser->pending > MAX_PENDING_VALUES) {
+        error(parser, "Expression has too many values.");
+    }
+}
+
 static int argumentList(Compiler *compiler, bool *unpack) {
     int argCount = 0;
 
@@ -454,11 +465,14 @@ static int argumentList(Compiler *compiler, bool *unpack) {
 
             expression(compiler);
             argCount++;
+            pendValues(compiler->parser, 1);
 
             if (argCount > 255) {
                 error(compiler->parser, "Cannot have more than 255 arguments.");
             }
         } while (match(compiler, TOKEN_COMMA));
+
+        compiler->parser->pending -= argCount;
     }
 
     consume(compiler, TOKEN_RIGHT_PAREN, "Expect ')' after arguments.");
@@ -922,9 +936,23 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
     consume(fnCompiler, TOKEN_RIGHT_PAREN, "Expect ')' after parameters.");
 }
 
+static bool tooManyFunctions(Compiler *compiler) {
+    if (compiler->functionDepth == MAX_NESTED_FUNCTIONS) {
+        error(compiler->parser, "Functions are nested too deeply.");
+        advance(compiler->parser);
+        return true;
+    }
+
+    return false;
+}
+
 static void arrow(Compiler *compiler, bool canAssign) {
     UNUSED(canAssign);
 
+    if (tooManyFunctions(compiler)) {
+        return;
+    }
+
     Compiler fnCompiler;
 
     // Setup function and parse parameters
@@ -1121,8 +1149,11 @@ static void list(Compiler *compiler, bool canAssign) {
 
         expression(compiler);
         count++;
+        pendValues(compiler->parser, 1);
     } while (match(compiler, TOKEN_COMMA));
 
+    compiler->parser->pending -= count;
+
     if (count > 255) {
         error(compiler->parser, "Cannot have more than 255 elements in a list literal.");
     }
@@ -1144,8 +1175,11 @@ static void dict(Compiler *compiler, bool canAssign) {
         consume(compiler, TOKEN_COLON, "Expected ':'");
         expression(compiler);
         count++;
+        pendValues(compiler->parser, 2);
     } while (match(compiler, TOKEN_COMMA));
 
+    compiler->parser->pending -= 2 * count;
+
     if (count > 255) {
         error(compiler->parser, "Cannot have more than 255 entries in a dictionary literal.");
     }
@@ -1537,12 +1571,32 @@ ParseRule rules[] = {
         {NULL,     NULL,      PREC_NONE},               // TOKEN_ERROR
 };
 
+static bool enterNesting(Parser *parser) {
+    if (parser->depth == MAX_NESTING) {
+        error(parser, "Code is nested too deeply.");
+        return false;
+    }
+
+    parser->depth++;
+    return true;
+}
+
+static void leaveNesting(Parser *parser) {
+    parser->depth--;
+}
+
 // Parses the expression whose first token has just been consumed.
 static void parseExpression(Compiler *compiler, Precedence precedence) {
     Parser *parser = compiler->parser;
+
+    if (!enterNesting(parser)) {
+        return;
+    }
+
     ParsePrefixFn prefixRule = getRule(parser->previous.type)->prefix;
     if (prefixRule == NULL) {
         error(parser, "Expect expression.");
+        leaveNesting(parser);
         return;
     }
 
@@ -1561,6 +1615,8 @@ static void parseExpression(Compiler *compiler, Precedence precedence) {
         // have, so the LHS must not be a valid lvalue.
         error(parser, "Invalid assignment target.");
     }
+
+    leaveNesting(parser);
 }
 
 static void parsePrecedence(Compiler *compiler, Precedence precedence) {
@@ -1577,6 +1633,10 @@ void expression(Compiler *compiler) {
 }
 
 static void function(Compiler *compiler, FunctionType type, AccessLevel level) {
+    if (tooManyFunctions(compiler)) {
+        return;
+    }
+
     Compiler fnCompiler;
 
     // Setup function and parse parameters
@@ -2927,6 +2987,16 @@ static void declaration(Compiler *compiler) {
 }
 
 static void statement(Compiler *compiler) {
+    if (!enterNesting(compiler->parser)) {
+        advance(compiler->parser);
+        return;
+    }
+
+    statementBody(compiler);
+    leaveNesting(compiler->parser);
+}
+
+static void statementBody(Compiler *compiler) {
     if (match(compiler, TOKEN_FOR)) {
         forStatement(compiler);
     } else if (match(compiler, TOKEN_IF)) {
@@ -2981,6 +3051,8 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     parser.hadError = false;
     parser.panicMode = false;
     parser.module = module;
+    parser.depth = 0;
+    parser.pending = 0;
 
     Scanner scanner;
     initScanner(&scanner, source);
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index c5d2fd1..5f9d603 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -76,6 +76,12 @@ typedef struct Loop {
     int scopeDepth;
 } Loop;
 
+// Limits that keep a recursive descent within the C stack, and one expression
+// within the part of the value stack that a call leaves free.
+#define MAX_NESTING 2000
+#define MAX_NESTED_FUNCTIONS 100
+#define MAX_PENDING_VALUES 1024
+
 typedef struct {
     DictuVM *vm;
     Scanner scanner;
@@ -84,6 +90,10 @@ typedef struct {
     bool hadError;
     bool panicMode;
     ObjModule *module;
+    // How deeply nested the code being parsed is.
+    int depth;
+    // How many list, dict and argument values are pending at most on the stack.
+    int pending;
 } Parser;
 
 typedef struct Compiler {
@@ -103,6 +113,7 @@ typedef struct Compiler {
     Upvalue upvalues[UINT8_COUNT];
 
     int scopeDepth;
+    int functionDepth;
     // Offsets of the last two OP_CONSTANT instructions emitted, or -1.
     int lastConstant;
     int secondLastConstant;
-- 
2.43.0


From 21ba358d1e343c3ec609357b986342864478bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 050/165] fix: deep recursion and unpacking a long list into
 arguments overran the value stack

---
 src/include/dictu_ffi_include.h |  3 ++-
 src/vm/vm.c                     | 12 +++++++++++-
 src/vm/vm.h                     |  6 +++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index 7b4b066..02614c4 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -290,6 +290,7 @@ typedef struct {
 } ObjFunction;
 
 #define STACK_MAX (64 * UINT8_COUNT)
+#define STACK_MARGIN (16 * UINT8_COUNT)
 typedef struct {
     Obj obj;
     ObjFunction *function;
@@ -305,7 +306,7 @@ typedef struct {
 
 struct _vm {
     void* _compilerStub;
-    Value stack[STACK_MAX];
+    Value stack[STACK_MAX + STACK_MARGIN];
     Value *stackTop;
     bool repl;
     CallFrame *frames;
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 84b049f..11b6737 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -42,7 +42,12 @@ static void resetStack(DictuVM *vm) {
             return false;                                                           \
         }                                                                           \
                                                                                     \
-        ObjList *list = AS_LIST(pop(vm));                                     \
+        ObjList *list = AS_LIST(pop(vm));                                           \
+                                                                                    \
+        if (vm->stackTop - vm->stack + list->values.count > STACK_MAX) {            \
+            runtimeError(vm, "Stack overflow");                                     \
+            return false;                                                           \
+        }                                                                           \
                                                                                     \
         for (int i = 0; i < list->values.count; ++i) {                              \
             push(vm, list->values.values[i]);                                       \
@@ -223,6 +228,11 @@ ObjClosure *compileModuleToClosure(DictuVM *vm, char *name, char *source) {
 }
 
 static bool call(DictuVM *vm, ObjClosure *closure, int argCount) {
+    if (vm->stackTop - vm->stack > STACK_MAX) {
+        runtimeError(vm, "Stack overflow");
+        return false;
+    }
+
     if (argCount < closure->function->arity) {
         if ((argCount + closure->function->isVariadic) == closure->function->arity) {
             // add missing variadic param ([])
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 9bc63e2..83156a3 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -9,6 +9,10 @@
 // TODO: Work out the maximum stack size at compilation time
 #define STACK_MAX (64 * UINT8_COUNT)
 
+// A call may use this much beyond STACK_MAX: its locals, and the values of
+// the largest expression the compiler accepts.
+#define STACK_MARGIN (16 * UINT8_COUNT)
+
 typedef struct {
     ObjClosure *closure;
     uint8_t *ip;
@@ -17,7 +21,7 @@ typedef struct {
 
 struct _vm {
     Compiler *compiler;
-    Value stack[STACK_MAX];
+    Value stack[STACK_MAX + STACK_MARGIN];
     Value *stackTop;
     bool repl;
     CallFrame *frames;
-- 
2.43.0


From ecc27714a3a42d4a9e54719f2e88bde50af9b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 051/165] fix: module constants were shared between modules by
 name, unmarked by the GC, and assignable from functions compiled before them

---
 src/include/dictu_ffi_include.h |  2 +-
 src/vm/compiler.c               |  9 ++-------
 src/vm/memory.c                 |  2 ++
 src/vm/object.c                 |  1 +
 src/vm/object.h                 |  2 ++
 src/vm/vm.c                     | 13 +++++++------
 src/vm/vm.h                     |  1 -
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/include/dictu_ffi_include.h b/src/include/dictu_ffi_include.h
index 02614c4..a40e627 100644
--- a/src/include/dictu_ffi_include.h
+++ b/src/include/dictu_ffi_include.h
@@ -260,6 +260,7 @@ typedef struct {
     ObjString *name;
     ObjString *path;
     Table values;
+    Table constants;
 } ObjModule;
 
 typedef struct {
@@ -315,7 +316,6 @@ struct _vm {
     ObjModule *lastModule;
     Table modules;
     Table globals;
-    Table constants;
     Table strings;
     Table numberMethods;
     Table boolMethods;
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index aded2bd..049c3e2 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -430,7 +430,7 @@ static uint8_t parseVariable(Compiler *compiler, const char *errorMessage, bool
 static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
     if (compiler->scopeDepth == 0) {
         if (constant) {
-            tableSet(compiler->parser->vm, &compiler->parser->vm->constants,
+            tableSet(compiler->parser->vm, &compiler->parser->module->constants,
                      AS_STRING(currentChunk(compiler)->constants.values[global]), NIL_VAL);
         }
 
@@ -1267,7 +1267,7 @@ static void checkConst(Compiler *compiler, uint8_t setOp, int arg) {
         }
     } else if (setOp == OP_SET_MODULE) {
         Value _;
-        if (tableGet(&compiler->parser->vm->constants, AS_STRING(currentChunk(compiler)->constants.values[arg]), &_)) {
+        if (tableGet(&compiler->parser->module->constants, AS_STRING(currentChunk(compiler)->constants.values[arg]), &_)) {
             error(compiler->parser, "Cannot assign to a constant.");
         }
     }
@@ -3071,11 +3071,6 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
 
     ObjFunction *function = endCompiler(&compiler);
 
-    // If we're in the repl we need the constants to live for the entirety of the execution
-    if (!vm->repl) {
-        freeTable(vm, &vm->constants);
-    }
-
     // If there was a compile error, the code is not valid, so don't
     // create a function.
     return parser.hadError ? NULL : function;
diff --git a/src/vm/memory.c b/src/vm/memory.c
index f5c7163..60c69ba 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -87,6 +87,7 @@ static void blackenObject(DictuVM *vm, Obj *object) {
             grayObject(vm, (Obj *) module->name);
             grayObject(vm, (Obj *) module->path);
             grayTable(vm, &module->values);
+            grayTable(vm, &module->constants);
             break;
         }
 
@@ -202,6 +203,7 @@ void freeObject(DictuVM *vm, Obj *object) {
         case OBJ_MODULE: {
             ObjModule *module = (ObjModule *) object;
             freeTable(vm, &module->values);
+            freeTable(vm, &module->constants);
             FREE(vm, ObjModule, object);
             break;
         }
diff --git a/src/vm/object.c b/src/vm/object.c
index 7da5f21..2d4d326 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -34,6 +34,7 @@ ObjModule *newModule(DictuVM *vm, ObjString *name) {
 
     ObjModule *module = ALLOCATE_OBJ(vm, ObjModule, OBJ_MODULE);
     initTable(&module->values);
+    initTable(&module->constants);
     module->name = name;
     module->path = NULL;
 
diff --git a/src/vm/object.h b/src/vm/object.h
index 81cfb3c..7c5cacf 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -98,6 +98,8 @@ typedef struct {
     ObjString* name;
     ObjString* path;
     Table values;
+    // The names of the module's constants.
+    Table constants;
 } ObjModule;
 
 typedef struct {
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 11b6737..9ce006d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -115,7 +115,6 @@ DictuVM *dictuInitVM(bool repl, int argc, char **argv) {
     vm->argv = argv;
     initTable(&vm->modules);
     initTable(&vm->globals);
-    initTable(&vm->constants);
     initTable(&vm->strings);
 
     initTable(&vm->numberMethods);
@@ -160,13 +159,8 @@ DictuVM *dictuInitVM(bool repl, int argc, char **argv) {
 }
 
 void dictuFreeVM(DictuVM *vm) {
-    if (vm->repl) {
-        freeTable(vm, &vm->constants);
-    }
-
     freeTable(vm, &vm->modules);
     freeTable(vm, &vm->globals);
-    freeTable(vm, &vm->constants);
     freeTable(vm, &vm->strings);
     freeTable(vm, &vm->numberMethods);
     freeTable(vm, &vm->boolMethods);
@@ -1087,6 +1081,13 @@ static DictuInterpretResult run(DictuVM *vm) {
 
         CASE_CODE(SET_MODULE): {
             ObjString *name = READ_STRING();
+            Value constant;
+
+            // A function may have been compiled before the constant was declared.
+            if (tableGet(&frame->closure->function->module->constants, name, &constant)) {
+                RUNTIME_ERROR("Cannot assign to a constant.");
+            }
+
             if (tableSet(vm, &frame->closure->function->module->values, name, peek(vm, 0))) {
                 tableDelete(vm, &frame->closure->function->module->values, name);
                 RUNTIME_ERROR("Undefined variable '%s'.", name->chars);
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 83156a3..5a41b2a 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -30,7 +30,6 @@ struct _vm {
     ObjModule *lastModule;
     Table modules;
     Table globals;
-    Table constants;
     Table strings;
     Table numberMethods;
     Table boolMethods;
-- 
2.43.0


From 50520dd8dbd78e0c22e92ba52e3ced990a3390a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 052/165] fix: a class constant could be overwritten through a
 subclass

---
 src/vm/vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9ce006d..0b827c8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1442,8 +1442,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                 ObjClass *klass = AS_CLASS(peek(vm, 1));
 
                 Value _;
-                if (tableGet(&klass->constants, key, &_)) {
-                    RUNTIME_ERROR("Cannot assign to class constant '%s.%s'.", klass->name->chars, key->chars);
+                for (ObjClass *owner = klass; owner != NULL; owner = owner->superclass) {
+                    if (tableGet(&owner->constants, key, &_)) {
+                        RUNTIME_ERROR("Cannot assign to class constant '%s.%s'.", klass->name->chars, key->chars);
+                    }
                 }
 
                 tableSet(vm, &klass->variables, key, peek(vm, 0));
-- 
2.43.0


From 1354dc0b2b0ee0556a52e7b2c166de406e2e4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 053/165] fix: compound assignment to a class variable was a
 runtime error

---
 src/vm/vm.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 0b827c8..6f1173a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1347,6 +1347,24 @@ static DictuInterpretResult run(DictuVM *vm) {
         }
 
         CASE_CODE(GET_ATTRIBUTE_NO_POP): {
+            if (IS_CLASS(peek(vm, 0))) {
+                ObjClass *klass = AS_CLASS(peek(vm, 0));
+                ObjClass *klassStore = klass;
+                ObjString *name = READ_STRING();
+                Value value;
+
+                while (klass != NULL) {
+                    if (tableGet(&klass->constants, name, &value) || tableGet(&klass->variables, name, &value)) {
+                        push(vm, value);
+                        DISPATCH();
+                    }
+
+                    klass = klass->superclass;
+                }
+
+                RUNTIME_ERROR("'%s' class has no attribute: '%s'.", klassStore->name->chars, name->chars);
+            }
+
             if (!IS_INSTANCE(peek(vm, 0))) {
                 RUNTIME_ERROR("Only instances have attrributes.");
             }
-- 
2.43.0


From a58b02ab43f7ccf625a929f0d603208c6fb8e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 054/165] fix: a default using an earlier optional parameter
 read the wrong value, and defaults were evaluated for supplied arguments

---
 src/vm/compiler.c | 29 +++++++++++++++++++++--------
 src/vm/vm.c       | 30 +++++-------------------------
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 049c3e2..604442e 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -102,13 +102,17 @@ static void emitLoop(Compiler *compiler, int loopStart) {
 // Emits [instruction] followed by a placeholder for a jump offset. The
 // placeholder can be patched by calling [jumpPatch]. Returns the index
 // of the placeholder.
-static int emitJump(Compiler *compiler, uint8_t instruction) {
-    emitByte(compiler, instruction);
+static int emitJumpOffset(Compiler *compiler) {
     emitByte(compiler, 0xff);
     emitByte(compiler, 0xff);
     return currentChunk(compiler)->count - 2;
 }
 
+static int emitJump(Compiler *compiler, uint8_t instruction) {
+    emitByte(compiler, instruction);
+    return emitJumpOffset(compiler);
+}
+
 static void emitReturn(Compiler *compiler) {
     // An initializer automatically returns "this".
     if (compiler->type == TYPE_INITIALIZER) {
@@ -885,7 +889,21 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 }
                 fnCompiler->function->arityOptional++;
                 optional = true;
+
+                // Skip the default value if the argument was passed, otherwise
+                // the value ends up in the slot of the parameter. The parameter
+                // itself can not be used in its own default value.
+                int slot = fnCompiler->localCount - 1;
+                int depth = fnCompiler->locals[slot].depth;
+                fnCompiler->locals[slot].depth = -1;
+
+                emitByte(fnCompiler, OP_DEFINE_OPTIONAL);
+                emitByte(fnCompiler, slot);
+                int passedJump = emitJumpOffset(fnCompiler);
                 expression(fnCompiler);
+                patchJump(fnCompiler, passedJump);
+
+                fnCompiler->locals[slot].depth = depth;
             } else {
                 fnCompiler->function->arity++;
 
@@ -897,11 +915,6 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
             index++;
         } while (match(fnCompiler, TOKEN_COMMA));
 
-        if (fnCompiler->function->arityOptional > 0) {
-            emitByte(fnCompiler, OP_DEFINE_OPTIONAL);
-            emitBytes(fnCompiler, fnCompiler->function->arity, fnCompiler->function->arityOptional);
-        }
-
         if (fnCompiler->function->propertyCount > 0) {
             DictuVM *vm = fnCompiler->parser->vm;
             push(vm, OBJ_VAL(fnCompiler->function));
@@ -2357,7 +2370,6 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
             return 1;
 
         case OP_SET_CLASS_VAR:
-        case OP_DEFINE_OPTIONAL:
         case OP_JUMP:
         case OP_COMPARE_JUMP:
         case OP_JUMP_IF_NIL:
@@ -2369,6 +2381,7 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_CALL:
             return 2;
 
+        case OP_DEFINE_OPTIONAL:
         case OP_INVOKE:
         case OP_INVOKE_INTERNAL:
         case OP_SUPER:
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6f1173a..c8c7561 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1096,32 +1096,12 @@ static DictuInterpretResult run(DictuVM *vm) {
         }
 
         CASE_CODE(DEFINE_OPTIONAL): {
-            int arity = READ_BYTE();
-            int arityOptional = READ_BYTE();
-            int argCount = vm->stackTop - frame->slots - arityOptional - 1;
-
-            // Temp array while we shuffle the stack.
-            // Can not have more than 255 args to a function, so
-            // we can define this with a constant limit
-            Value values[255];
-            int index;
-
-            for (index = 0; index < arityOptional + argCount; index++) {
-                values[index] = pop(vm);
-            }
-
-            --index;
-
-            for (int i = 0; i < argCount; i++) {
-                push(vm, values[index - i]);
-            }
-
-            // Calculate how many "default" values are required
-            int remaining = arity + arityOptional - argCount;
+            uint8_t slot = READ_BYTE();
+            uint16_t offset = READ_SHORT();
 
-            // Push any "default" values back onto the stack
-            for (int i = remaining; i > 0; i--) {
-                push(vm, values[i - 1]);
+            // The argument was passed, skip its default value
+            if (vm->stackTop - frame->slots > slot) {
+                ip += offset;
             }
 
             DISPATCH();
-- 
2.43.0


From b58bc25c5eef3364042863c141a1a030eb7186f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 055/165] fix: a function held by a private attribute could not
 be called through this

---
 src/vm/compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 604442e..ffcc548 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -690,6 +690,13 @@ static void dot(Compiler *compiler, LangToken previousToken, bool canAssign) {
     LangToken identifier = compiler->parser->previous;
 
     if (match(compiler, TOKEN_LEFT_PAREN)) {
+        if (compiler->class != NULL && previousToken.type == TOKEN_THIS && privatePropertyExists(identifier, compiler)) {
+            // The attribute holds the value to call.
+            emitBytes(compiler, OP_GET_PRIVATE_ATTRIBUTE, name);
+            call(compiler, previousToken, canAssign);
+            return;
+        }
+
         bool unpack = false;
 
         int argCount = argumentList(compiler, &unpack);
-- 
2.43.0


From abcca544bca16f9aba2126e909b1a4031c90e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 056/165] fix: calling a method through a variable named like
 the enclosing class failed unless it held an instance or class

---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c8c7561..f69a741 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -402,6 +402,8 @@ static bool invokeFromClass(DictuVM *vm, ObjClass *klass, ObjString *name,
     return call(vm, AS_CLOSURE(method), argCount);
 }
 
+static bool invoke(DictuVM *vm, ObjString *name, int argCount, bool unpack);
+
 static bool invokeInternal(DictuVM *vm, ObjString *name, int argCount, bool unpack) {
     Value receiver = peek(vm, argCount);
 
@@ -464,6 +466,9 @@ static bool invokeInternal(DictuVM *vm, ObjString *name, int argCount, bool unpa
         if (tableGet(&vm->classMethods, name, &method)) {
             return callNativeMethod(vm, method, argCount);
         }
+    } else {
+        // Not an object that can have private methods, the arguments are already unpacked.
+        return invoke(vm, name, argCount, unpack);
     }
 
     runtimeError(vm, "Undefined attribute '%s'.", name->chars);
-- 
2.43.0


From 9b453e7fa373bf6d6b299a52873f5dad144b0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 057/165] fix: Class.toDict() used a freed list and reported
 the values and name of the base class for overridden members

---
 src/vm/object.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 2d4d326..6d4e68d 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -573,6 +573,13 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
             if (klass->variables.entries[i].key == NULL) {
                 continue;
             }
+
+            // The value of the nearest class wins
+            Value existing;
+            if (dictGet(variablesDict, OBJ_VAL(klass->variables.entries[i].key), &existing)) {
+                continue;
+            }
+
             dictSet(vm, variablesDict, OBJ_VAL(klass->variables.entries[i].key), klass->variables.entries[i].value);
         }
 
@@ -580,6 +587,12 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
             if (klass->constants.entries[i].key == NULL) {
                 continue;
             }
+
+            Value existing;
+            if (dictGet(constantsDict, OBJ_VAL(klass->constants.entries[i].key), &existing)) {
+                continue;
+            }
+
             dictSet(vm, constantsDict, OBJ_VAL(klass->constants.entries[i].key), klass->constants.entries[i].value);
         }
 
@@ -602,20 +615,20 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
     push(vm, OBJ_VAL(variables));
     dictSet(vm, classDict, variables, OBJ_VAL(variablesDict));
     pop(vm);
-    pop(vm); // variablesDict
 
     Value constants = OBJ_VAL(copyString(vm, "constants", 9));
     push(vm, OBJ_VAL(constants));
     dictSet(vm, classDict, constants, OBJ_VAL(constantsDict));
     pop(vm);
-    pop(vm); // constantsDict
 
     Value methods = OBJ_VAL(copyString(vm, "public_methods", 14));
     push(vm, OBJ_VAL(methods));
     dictSet(vm, classDict, methods, OBJ_VAL(methodsList));
     pop(vm);
-    pop(vm); // methodsList
 
+    pop(vm); // methodsList
+    pop(vm); // constantsDict
+    pop(vm); // variablesDict
     pop(vm); // classDict
     return classDict;
 }
-- 
2.43.0


From 6ef4798ea90764cb729a9ef619e2445b03d63620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 058/165] fix: getAttribute() did not find class constants

---
 src/vm/datatypes/instance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/datatypes/instance.c b/src/vm/datatypes/instance.c
index 8d497de..4bd780e 100644
--- a/src/vm/datatypes/instance.c
+++ b/src/vm/datatypes/instance.c
@@ -94,6 +94,10 @@ static Value getAttribute(DictuVM *vm, int argCount, Value *args) {
     ObjClass *klass = instance->klass;
 
     while (klass != NULL) {
+        if (tableGet(&klass->constants, AS_STRING(key), &value)) {
+            return value;
+        }
+
         if (tableGet(&klass->variables, AS_STRING(key), &value)) {
             return value;
         }
-- 
2.43.0


From 5531a37511b29f86a15297e540139ead1ddc70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 059/165] fix: Object.hash() returned a string padded with
 uninitialised bytes

---
 src/optionals/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index ff5553d..964c10c 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -56,7 +56,7 @@ static Value objectHash(DictuVM *vm, int argCount, Value *args) {
 
     char str[21];
     sprintf(str, "%llu", (unsigned long long)args[0]);
-    return OBJ_VAL(copyString(vm, (char *)str, 21));
+    return OBJ_VAL(copyString(vm, str, strlen(str)));
 }
 
 static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From bc0120508c4517d31cb4aa974b8650e3d6abaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 060/165] fix: Object.prettyPrint() crashed on an indent that
 is not a number

---
 src/optionals/object/object.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/object/object.c b/src/optionals/object/object.c
index 964c10c..154b3bb 100644
--- a/src/optionals/object/object.c
+++ b/src/optionals/object/object.c
@@ -66,9 +66,14 @@ static Value objectPrettyPrint(DictuVM *vm, int argCount, Value *args) {
     }
 
     Value out = stringify(vm, argCount, args);
+
+    if (IS_EMPTY(out)) {
+        return EMPTY_VAL;
+    }
+
     ObjResult *res = AS_RESULT(out);
     if (res->status == ERR) {
-        runtimeError(vm, AS_CSTRING(res->value));
+        runtimeError(vm, "%s", AS_CSTRING(res->value));
         return EMPTY_VAL;
     }
     
-- 
2.43.0


From 971056e3758bcada8726b0bccaa768a439549ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 061/165] fix: the table of strings grew with every string ever
 created

---
 src/vm/table.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vm/table.c b/src/vm/table.c
index e1c0e9d..485e1c5 100644
--- a/src/vm/table.c
+++ b/src/vm/table.c
@@ -80,16 +80,28 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
 
 bool tableSet(DictuVM *vm, Table *table, ObjString *key, Value value) {
     if (table->count + 1 > table->capacity * TABLE_MAX_LOAD) {
-        int capacity = GROW_CAPACITY(table->capacity);
+        // The count includes tombstones, only grow if the keys need the room
+        int keys = 0;
+        for (int i = 0; i < table->capacity; i++) {
+            if (table->entries[i].key != NULL) keys++;
+        }
+
+        int capacity = table->capacity;
+        if (keys + 1 > capacity * TABLE_MAX_LOAD / 2) {
+            capacity = GROW_CAPACITY(capacity);
+        }
+
         adjustCapacity(vm, table, capacity);
     }
 
     Entry *entry = findEntry(table->entries, table->capacity, key);
     bool isNewKey = entry->key == NULL;
+    bool isTombstone = isNewKey && !IS_NIL(entry->value);
     entry->key = key;
     entry->value = value;
 
-    if (isNewKey) table->count++;
+    // A tombstone has been counted already
+    if (isNewKey && !isTombstone) table->count++;
 
     return isNewKey;
 }
-- 
2.43.0


From 3899b7d0b4dd63f6744a789c33eaa525915ec60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 062/165] fix: a class declared again kept the annotations
 inherited from its previous superclass

---
 src/vm/vm.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f69a741..3b9d317 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2312,40 +2312,47 @@ static DictuInterpretResult run(DictuVM *vm) {
         }
 
         CASE_CODE(DEFINE_CLASS_ANNOTATIONS): {
-            ObjDict *dict = AS_DICT(READ_CONSTANT());
-            ObjClass *klass = AS_CLASS(peek(vm, 0));
+            // The constant may be used again, for another superclass
+            ObjDict *dict = copyDict(vm, AS_DICT(READ_CONSTANT()), false);
+            push(vm, OBJ_VAL(dict));
+            ObjClass *klass = AS_CLASS(peek(vm, 1));
 
             if (klass->classAnnotations != NULL) {
                 copyAnnotations(vm, klass->classAnnotations, dict);
             }
 
             klass->classAnnotations = dict;
+            pop(vm);
 
             DISPATCH();
         }
 
         CASE_CODE(DEFINE_METHOD_ANNOTATIONS): {
-            ObjDict *dict = AS_DICT(READ_CONSTANT());
-            ObjClass *klass = AS_CLASS(peek(vm, 0));
+            ObjDict *dict = copyDict(vm, AS_DICT(READ_CONSTANT()), false);
+            push(vm, OBJ_VAL(dict));
+            ObjClass *klass = AS_CLASS(peek(vm, 1));
             
             if (klass->methodAnnotations != NULL) {
                 copyAnnotations(vm, klass->methodAnnotations, dict);
             }
 
             klass->methodAnnotations = dict;
+            pop(vm);
 
             DISPATCH();
         }
 
         CASE_CODE(DEFINE_FIELD_ANNOTATIONS): {
-            ObjDict *dict = AS_DICT(READ_CONSTANT());
-            ObjClass *klass = AS_CLASS(peek(vm, 0));
+            ObjDict *dict = copyDict(vm, AS_DICT(READ_CONSTANT()), false);
+            push(vm, OBJ_VAL(dict));
+            ObjClass *klass = AS_CLASS(peek(vm, 1));
 
             if (klass->fieldAnnotations != NULL) {
                 copyAnnotations(vm, klass->fieldAnnotations, dict);
             }
 
             klass->fieldAnnotations = dict;
+            pop(vm);
 
             DISPATCH();
         }
-- 
2.43.0


From 6458932e38b866485c7d076c5f3d3571ea5f1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 063/165] fix: a collection during the growth of the string
 table let it grow without bound

---
 src/vm/memory.c | 16 +++++++++-------
 src/vm/table.c  | 48 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/vm/memory.c b/src/vm/memory.c
index 60c69ba..dc8a3c6 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -13,22 +13,24 @@
 #define GC_HEAP_GROW_FACTOR 2
 
 void *reallocate(DictuVM *vm, void *previous, size_t oldSize, size_t newSize) {
-    vm->bytesAllocated += newSize - oldSize;
-
-#ifdef DEBUG_TRACE_MEM
-    printf("Total bytes allocated: %zu\nNew allocation: %zu\nOld allocation: %zu\n\n", vm->bytesAllocated, newSize, oldSize);
-#endif
-
     if (newSize > oldSize) {
 #ifdef DEBUG_STRESS_GC
         collectGarbage(vm);
 #endif
 
-        if (vm->bytesAllocated > vm->nextGC) {
+        // Collect before counting the new memory, it does not belong to the
+        // live memory the next threshold is derived from
+        if (vm->bytesAllocated + (newSize - oldSize) > vm->nextGC) {
             collectGarbage(vm);
         }
     }
 
+    vm->bytesAllocated += newSize - oldSize;
+
+#ifdef DEBUG_TRACE_MEM
+    printf("Total bytes allocated: %zu\nNew allocation: %zu\nOld allocation: %zu\n\n", vm->bytesAllocated, newSize, oldSize);
+#endif
+
     if (newSize == 0) {
         free(previous);
         return NULL;
diff --git a/src/vm/table.c b/src/vm/table.c
index 485e1c5..33c12a1 100644
--- a/src/vm/table.c
+++ b/src/vm/table.c
@@ -7,6 +7,7 @@
 #include "value.h"
 
 #define TABLE_MAX_LOAD 0.75
+#define TABLE_MAX_KEYS 0.625
 
 void initTable(Table *table) {
     table->count = 0;
@@ -54,9 +55,33 @@ bool tableGet(Table *table, ObjString *key, Value *value) {
     return true;
 }
 
-static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
-    Entry *entries = ALLOCATE(vm, Entry, capacityMask);
-    for (int i = 0; i < capacityMask; i++) {
+// The count includes tombstones, only grow if the keys need the room
+static int capacityForAnother(Table *table) {
+    int keys = 0;
+    for (int i = 0; i < table->capacity; i++) {
+        if (table->entries[i].key != NULL) keys++;
+    }
+
+    if (keys + 1 > table->capacity * TABLE_MAX_KEYS) {
+        return GROW_CAPACITY(table->capacity);
+    }
+
+    return table->capacity;
+}
+
+static void makeRoom(DictuVM *vm, Table *table) {
+    int capacity = capacityForAnother(table);
+    Entry *entries = ALLOCATE(vm, Entry, capacity);
+
+    // The allocation may have collected strings held in the table
+    int needed = capacityForAnother(table);
+    if (needed < capacity) {
+        FREE_ARRAY(vm, Entry, entries, capacity);
+        capacity = needed;
+        entries = ALLOCATE(vm, Entry, capacity);
+    }
+
+    for (int i = 0; i < capacity; i++) {
         entries[i].key = NULL;
         entries[i].value = NIL_VAL;
     }
@@ -67,7 +92,7 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
         Entry *entry = &table->entries[i];
         if (entry->key == NULL) continue;
 
-        Entry *dest = findEntry(entries, capacityMask, entry->key);
+        Entry *dest = findEntry(entries, capacity, entry->key);
         dest->key = entry->key;
         dest->value = entry->value;
         table->count++;
@@ -75,23 +100,12 @@ static void adjustCapacity(DictuVM *vm, Table *table, int capacityMask) {
 
     FREE_ARRAY(vm, Entry, table->entries, table->capacity);
     table->entries = entries;
-    table->capacity = capacityMask;
+    table->capacity = capacity;
 }
 
 bool tableSet(DictuVM *vm, Table *table, ObjString *key, Value value) {
     if (table->count + 1 > table->capacity * TABLE_MAX_LOAD) {
-        // The count includes tombstones, only grow if the keys need the room
-        int keys = 0;
-        for (int i = 0; i < table->capacity; i++) {
-            if (table->entries[i].key != NULL) keys++;
-        }
-
-        int capacity = table->capacity;
-        if (keys + 1 > capacity * TABLE_MAX_LOAD / 2) {
-            capacity = GROW_CAPACITY(capacity);
-        }
-
-        adjustCapacity(vm, table, capacity);
+        makeRoom(vm, table);
     }
 
     Entry *entry = findEntry(table->entries, table->capacity, key);
-- 
2.43.0


From 503da7bd0eb711586d37feae90246e3485f4da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 064/165] fix: the functions of Log crashed or printed memory
 when given something that is not a string

---
 src/optionals/log.c | 50 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 32b2d04..7642396 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -32,6 +32,11 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[0]);
@@ -47,6 +52,11 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -63,6 +73,11 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -79,6 +94,11 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -106,6 +126,11 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "setPrefix() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
     char *prefix = AS_CSTRING(args[1]);
     
@@ -139,6 +164,11 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -165,6 +195,11 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -191,6 +226,11 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -209,6 +249,11 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -260,6 +305,11 @@ static Value newLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "new() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjAbstract *abstract = newLogObj(vm);
     Log *log = abstract->data;
 
-- 
2.43.0


From 9f930de0dfde78b914e5f213a03ae20591dc1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 065/165] fix: log messages carried the number of the previous
 month

---
 src/optionals/log.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 7642396..78e9b6c 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -41,7 +41,7 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -62,7 +62,7 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -83,7 +83,7 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
     
     exit(1);
@@ -104,7 +104,7 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[0]);
     printf("%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
     
     exit(1);
@@ -176,14 +176,14 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
 
     if (log->prefix != NULL && strlen(log->prefix) != 0) {
         fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
             ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
 
         return NIL_VAL;
     }
 
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -207,14 +207,14 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
 
     if (log->prefix != NULL && strlen(log->prefix) != 0) {
         fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
-            ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
             ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
 
         return NIL_VAL;
     }
 
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     return NIL_VAL;
@@ -237,7 +237,7 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[1]);
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     exit(1);
@@ -260,7 +260,7 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
 
     char *msg = AS_CSTRING(args[1]);
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
-        ptm->tm_year+2000-100, ptm->tm_mon, ptm->tm_mday, 
+        ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
     exit(1);
-- 
2.43.0


From cbcabfbfdb9332d540aeda25a7704f9735335d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 066/165] fix: setting the prefix of a logger again leaked the
 previous prefix

---
 src/optionals/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 78e9b6c..995580d 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -138,6 +138,7 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
     
+    free(log->prefix);
     log->prefix = strdup(prefix);
 
     return NIL_VAL;
-- 
2.43.0


From 1cf15934ab20289211164e9a4b5ec6225b1f9b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 067/165] fix: fatal() and fatalln() of a logger ignored its
 prefix and fatal() added a line break

---
 src/optionals/log.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 995580d..a861f30 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -237,7 +237,15 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[1]);
-    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
+    if (log->prefix != NULL && strlen(log->prefix) != 0) {
+        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s", 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
+            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
+
+        exit(1);
+    }
+
+    fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s", 
         ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
 
@@ -260,6 +268,14 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[1]);
+    if (log->prefix != NULL && strlen(log->prefix) != 0) {
+        fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s %s\n", 
+            ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
+            ptm->tm_hour, ptm->tm_min, ptm->tm_sec, log->prefix, msg);
+
+        exit(1);
+    }
+
     fprintf(log->of, "%04d/%02d/%02d %02d:%02d:%02d %s\n", 
         ptm->tm_year+2000-100, ptm->tm_mon + 1, ptm->tm_mday, 
         ptm->tm_hour, ptm->tm_min, ptm->tm_sec, msg);
-- 
2.43.0


From adbf4d13aff124e5406758f937eb376df9553829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 068/165] fix: BigInt functions went on after refusing a wrong
 number of arguments, reading past the stack

---
 src/optionals/bigint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 37b3b23..7f7914c 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -179,6 +179,7 @@ static Value unwrapBigInt(Value val) {
 static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     if (argCount > 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     if (argCount == 0) {
@@ -223,6 +224,7 @@ static Value handleLongOrUnwrapError(DictuVM *vm, bool argIsLong) {
 static Value applyOp1Arg(DictuVM *vm, int argCount, Value *args, int (*op)(const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
@@ -271,6 +273,7 @@ static Value applyOp0ArgToReturn(DictuVM *vm, int argCount, Value *args, bigint*
 static Value applyOp1ArgAndReturn(DictuVM *vm, int argCount, Value *args, bigint* (*op)(bigint*, const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
-- 
2.43.0


From b1bbd032ea735c6f21c57abbd1a27eff3acc174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 069/165] fix: BigInt.new() crashed when given a Result that
 holds a BigInt

---
 src/optionals/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 7f7914c..bd8ad56 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -195,7 +195,7 @@ static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     Value val = unwrapBigInt(args[0]);
 
     if (isBigIntValue(val)) {
-        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(args[0])->data));
+        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(val)->data));
     }
 
     return newResultError(vm, "error: invalid argument");
-- 
2.43.0


From caf20d7747e4cf873e61f9c16a98761b931510d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:42 +0000
Subject: [PATCH 070/165] fix: BigInt truncated numbers that need more than 32
 bits

---
 src/optionals/bigint.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index bd8ad56..4d6b85c 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -41,7 +41,14 @@ static char *bigIntToString(ObjAbstract *abstract) {
 
 static bool isLong(Value val) {
     double num = AS_NUMBER(val);
-    return num == ((double) (long) num);
+    return num >= -9223372036854775808.0 && num < 9223372036854775808.0 && num == ((double) (long) num);
+}
+
+// bigint_from_int() only takes values that fit an int
+static bigint *bigIntSetLong(bigint *dst, long num) {
+    char digits[32];
+    snprintf(digits, sizeof(digits), "%ld", num);
+    return bigint_from_str(dst, digits);
 }
 
 static bool isIntString(Value val) {
@@ -124,7 +131,7 @@ static BigIntData *bigIntFromLong(DictuVM *vm, Value numValue) {
     bigint *ret = NULL;
 
     if (bi != NULL) {
-        ret = bigint_from_int(&bi->value, num);
+        ret = bigIntSetLong(&bi->value, num);
     }
 
     return freeBigIntOnFailure(vm, bi, ret);
@@ -205,7 +212,7 @@ static bool handleLongOrUnwrap(Value arg, bigint* tmp, Value* val, bool* argIsLo
     if (IS_NUMBER(arg) && isLong(arg)) {
         *argIsLong = true;
         bigint_init(tmp);
-        return bigint_from_int(tmp, (long) AS_NUMBER(arg)) != NULL;
+        return bigIntSetLong(tmp, (long) AS_NUMBER(arg)) != NULL;
     } else {
         *argIsLong = false;
         *val = unwrapBigInt(arg);
-- 
2.43.0


From ff23c7a0dde901dcae3221c2d6a9327cc8e96624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 071/165] fix: Buffer reads and writes at a negative index, or
 one beyond the end, accessed memory outside the buffer

---
 src/optionals/buffer.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 1015693..107af0e 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -45,21 +45,21 @@ uint8_t *swap(uint8_t *ptr, size_t len, bool bigEndian) {
     return ptr;
 }
 
-bool ensureSize(Buffer *buffer, size_t offset, size_t size) {
-    return buffer->size - offset >= size;
+bool ensureSize(Buffer *buffer, double offset, size_t size) {
+    return offset >= 0 && offset + size <= buffer->size;
 }
 
-bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
+bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
-    memcpy(buffer->bytes + offset, data, len);
+    memcpy(buffer->bytes + (size_t)offset, data, len);
     return true;
 }
 
-uint8_t *getReadPtr(Buffer *buffer, size_t offset, size_t len) {
+uint8_t *getReadPtr(Buffer *buffer, double offset, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return NULL;
-    return buffer->bytes + offset;
+    return buffer->bytes + (size_t)offset;
 }
 
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 332ec42a2dfaf354aeb1c74d0cdc70444e9857a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 072/165] fix: a size or index that is not a number (nan) was
 accepted by Buffer functions

---
 src/optionals/buffer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 107af0e..0802da9 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -74,7 +74,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[1]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1) || capacity >= BUFFER_SIZE_MAX) {
         return newResultError(
             vm, "size must be greater than 0 and smaller than 2147483647");
     }
@@ -758,7 +758,7 @@ static Value bufferGet(DictuVM *vm, int argCount, Value *args) {
     }
 
     double index = AS_NUMBER(args[1]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -787,7 +787,7 @@ static Value bufferSet(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -819,7 +819,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     ObjString *str = AS_STRING(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -1002,7 +1002,7 @@ static Value newBuffer(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1) || capacity >= BUFFER_SIZE_MAX) {
         return newResultError(
             vm, "capacity must be greater than 0 and less than 2147483647");
     }
-- 
2.43.0


From af34fc3975d6768d39b326649cb22c6a8f1e468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 073/165] fix: Buffer.readString() and subarray() read outside
 the buffer when given a negative start or end

---
 src/optionals/buffer.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 0802da9..33b6101 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -846,7 +846,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
-        if (startParam >= buffer->size) {
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        } else if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
         } else {
@@ -860,7 +862,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
-        if (endParam > buffer->size) {
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        } else if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
             end = endParam;
@@ -886,7 +890,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
-        if (startParam >= buffer->size) {
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        } else if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
         } else {
@@ -900,7 +906,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
-        if (endParam > buffer->size) {
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        } else if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
             end = endParam;
-- 
2.43.0


From 65f9eb0b6b73118cc896d3b2db0c548b18fc676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 074/165] fix: reading a NaN from a Buffer could produce a
 forged object and crash

---
 src/optionals/buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 33b6101..a0af42f 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -1,3 +1,5 @@
+#include <math.h>
+
 #include "buffer.h"
 
 typedef struct {
@@ -453,6 +455,8 @@ static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size - 8");
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
+    if (value != value)
+        value = NAN;  // as read, its payload would pass for another type of value
 
     return newResultSuccess(vm, NUMBER_VAL(value));
 }
@@ -479,6 +483,8 @@ static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size - 4");
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
+    if (value != value)
+        value = NAN;  // as read, its payload would pass for another type of value
     return newResultSuccess(vm, NUMBER_VAL(value));
 }
 
-- 
2.43.0


From 9adfa0c06622b1fb586161f84957af15f5274f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 075/165] fix: Buffer.write...BE() returned the written value
 with its bytes swapped

---
 src/optionals/buffer.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index a0af42f..6874732 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -147,13 +147,14 @@ static Value bufferWriteint8(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     int8_t correctVal = (int8_t)value;
+    int8_t written = correctVal;
 
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 1");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 static Value bufferWriteUint16LE(DictuVM *vm, int argCount, Value *args) {
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -182,13 +183,14 @@ static Value bufferWriteUint16LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     uint16_t correctVal = (uint16_t)value;
+    uint16_t written = correctVal;
 
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWriteUint32LE(DictuVM *vm, int argCount, Value *args) {
@@ -218,12 +220,13 @@ static Value bufferWriteUint32LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     uint32_t correctVal = (uint32_t)value;
+    uint32_t written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWriteUint64LE(DictuVM *vm, int argCount, Value *args) {
@@ -253,12 +256,13 @@ static Value bufferWriteUint64LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     uint64_t correctVal = (uint64_t)value;
+    uint64_t written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWriteint64LE(DictuVM *vm, int argCount, Value *args) {
@@ -286,12 +290,13 @@ static Value bufferWriteint64LE(DictuVM *vm, int argCount, Value *args) {
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
     int64_t correctVal = (int64_t)value;
+    int64_t written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWriteint32LE(DictuVM *vm, int argCount, Value *args) {
@@ -320,12 +325,13 @@ static Value bufferWriteint32LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     int32_t correctVal = (int32_t)value;
+    int32_t written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWriteint16LE(DictuVM *vm, int argCount, Value *args) {
@@ -354,12 +360,13 @@ static Value bufferWriteint16LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     int16_t correctVal = (int16_t)value;
+    int16_t written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWritefloat32LE(DictuVM *vm, int argCount, Value *args) {
@@ -388,12 +395,13 @@ static Value bufferWritefloat32LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     float correctVal = (float)value;
+    float written = correctVal;
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
@@ -423,13 +431,14 @@ static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
     double value = AS_NUMBER(args[2]);
 
     double correctVal = value;
+    double written = correctVal;
 
     if (!writeInternal(
             buffer, index,
             swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
-    return newResultSuccess(vm, NUMBER_VAL(correctVal));
+    return newResultSuccess(vm, NUMBER_VAL(written));
 }
 
 static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From b1b7d3b92bfa0734d499a2c07977e57b8c284b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 076/165] fix: Buffer.resize() did not return the new size

---
 src/optionals/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 6874732..f476e0f 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -88,7 +88,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
         memset(buffer->bytes + buffer->size, 0, added);
     }
     buffer->size = capacity;
-    return newResultSuccess(vm, args[0]);
+    return newResultSuccess(vm, NUMBER_VAL(buffer->size));
 }
 
 static Value bufferLen(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From cee8611592d0dfb1d35aaabbe35966188dbe9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 077/165] fix: JSON.stringify() kept only six significant
 digits of a number

---
 src/optionals/json/jsonBuilderLib.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 2b2e589..0bb1a55 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -523,6 +523,18 @@ static size_t serialize_string (json_char * buf,
     return buf - orig_buf;
 }
 
+/* the shorter of the two forms that reads back as the same number; at most 25 bytes
+ */
+static int format_double (json_char * buf, double number)
+{
+    int length = sprintf (buf, "%.15g", number);
+
+    if (strtod (buf, NULL) != number)
+        length = sprintf (buf, "%.17g", number);
+
+    return length;
+}
+
 size_t json_measure (json_value * value)
 {
     return json_measure_ex (value, default_opts);
@@ -554,6 +566,7 @@ size_t json_measure_ex (json_value * value, json_serialize_opts opts)
     {
         json_int_t integer;
         json_object_entry * entry;
+        json_char number [32];
 
         switch (value->type)
         {
@@ -662,7 +675,7 @@ size_t json_measure_ex (json_value * value, json_serialize_opts opts)
 
             case json_double:
 
-                total += snprintf (NULL, 0, "%g", value->u.dbl);
+                total += format_double (number, value->u.dbl);
 
                 /* Because sometimes we need to add ".0" if sprintf does not do it
                  * for us. Downside is that we allocate more bytes than strictly
@@ -880,7 +893,7 @@ void json_serialize_ex (json_char * buf, json_value * value, json_serialize_opts
             case json_double:
 
                 ptr = buf;
-                buf += sprintf (buf, "%g", value->u.dbl);
+                buf += format_double (buf, value->u.dbl);
 
                 json_char *dot;
 
-- 
2.43.0


From ea4aacda695b60b3959751ae50ae7bedde19e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 078/165] fix: JSON.stringify() wrote control characters into
 strings unescaped, which is not valid JSON

---
 src/optionals/json/jsonBuilderLib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 0bb1a55..c5b958f 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -479,7 +479,7 @@ static size_t measure_string (unsigned int length,
 
             default:
 
-                ++ measured_length;
+                measured_length += (unsigned char) c < 0x20 ? 6 : 1;
                 break;
         };
     };
@@ -515,6 +515,12 @@ static size_t serialize_string (json_char * buf,
 
             default:
 
+                if ((unsigned char) c < 0x20)
+                {
+                    buf += sprintf (buf, "\\u%04x", c);
+                    continue;
+                }
+
                 *buf ++ = c;
                 break;
         };
-- 
2.43.0


From 0a368907c0c6273417146eccb4cfc5a7dc9bc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 079/165] fix: JSON.stringify() cut strings and keys at a NUL
 character

---
 src/optionals/json.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 63c0691..faedae1 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -112,7 +112,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_OBJ(value)) {
         switch (AS_OBJ(value)->type) {
             case OBJ_STRING: {
-                return json_string_new(AS_CSTRING(value));
+                return json_string_new_length(AS_STRING(value)->length, AS_CSTRING(value));
             }
 
             case OBJ_LIST: {
@@ -137,10 +137,12 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                     }
 
                     char *key;
+                    int keyLength = -1;
 
                     if (IS_STRING(entry->key)) {
                         ObjString *s = AS_STRING(entry->key);
                         key = s->chars;
+                        keyLength = s->length;
                     } else if (IS_NIL(entry->key)) {
                         key = malloc(5);
                         memcpy(key, "null", 4);
@@ -149,8 +151,9 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         key = valueToString(entry->key);
                     }
 
-                    json_object_push(
+                    json_object_push_length(
                         json,
+                        keyLength < 0 ? strlen(key) : (size_t) keyLength,
                         key,
                         stringifyJson(vm, entry->value)
                     );
-- 
2.43.0


From a55d543b6c405995569a38c176d335174a5aeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 080/165] fix: JSON.stringify() converted numbers outside the
 range of an int with undefined results and wrote nan and inf, which are not
 JSON

---
 src/optionals/json.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index faedae1..443f4bf 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -104,8 +104,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_NUMBER(value)) {
         double num = AS_NUMBER(value);
 
-        if ((int) num == num) {
-            return json_integer_new((int) num);
+        if (num != num || num - num != 0) {
+            // JSON has no representation of nan and the infinities
+            return NULL;
+        }
+
+        if (num >= -9007199254740992.0 && num <= 9007199254740992.0 && (int64_t) num == num) {
+            return json_integer_new((int64_t) num);
         }
 
         return json_double_new(num);
-- 
2.43.0


From 9a0f7801d97f201a1722fa09e16ebe6b3bc83fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 081/165] fix: JSON.stringify() crashed on a list or dictionary
 holding a value that cannot be serialised

---
 src/optionals/json.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 443f4bf..a5a15b7 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -125,7 +125,14 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_array_push(json, stringifyJson(vm, list->values.values[i]));
+                    json_value *item = stringifyJson(vm, list->values.values[i]);
+
+                    if (item == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
+                    json_array_push(json, item);
                 }
 
                 return json;
@@ -141,6 +148,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
+                    json_value *item = stringifyJson(vm, entry->value);
+
+                    if (item == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
                     char *key;
                     int keyLength = -1;
 
@@ -160,7 +174,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         json,
                         keyLength < 0 ? strlen(key) : (size_t) keyLength,
                         key,
-                        stringifyJson(vm, entry->value)
+                        item
                     );
 
                     if (!IS_STRING(entry->key)) {
-- 
2.43.0


From 476e2a621d05d07d8965d218606140660640ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 082/165] fix: JSON.stringify() overflowed the stack on a list
 or dictionary that contains itself

---
 src/optionals/json.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index a5a15b7..59459fc 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -96,7 +96,23 @@ static Value parse(DictuVM *vm, int argCount, Value *args) {
     return newResultSuccess(vm, val);
 }
 
-json_value* stringifyJson(DictuVM *vm, Value value) {
+// The containers being serialised, innermost first
+typedef struct JsonParent {
+    Obj *container;
+    struct JsonParent *next;
+} JsonParent;
+
+static bool isJsonParent(JsonParent *parents, Obj *container) {
+    for (; parents != NULL; parents = parents->next) {
+        if (parents->container == container) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+static json_value* stringifyValue(DictuVM *vm, Value value, JsonParent *parents) {
     if (IS_NIL(value)) {
         return json_null_new();
     } else if (IS_BOOL(value)) {
@@ -115,6 +131,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
 
         return json_double_new(num);
     } else if (IS_OBJ(value)) {
+        if (isJsonParent(parents, AS_OBJ(value))) {
+            // A value that contains itself has no JSON form
+            return NULL;
+        }
+
+        JsonParent parent = { AS_OBJ(value), parents };
+
         switch (AS_OBJ(value)->type) {
             case OBJ_STRING: {
                 return json_string_new_length(AS_STRING(value)->length, AS_CSTRING(value));
@@ -125,7 +148,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_value *item = stringifyJson(vm, list->values.values[i]);
+                    json_value *item = stringifyValue(vm, list->values.values[i], &parent);
 
                     if (item == NULL) {
                         json_builder_free(json);
@@ -148,7 +171,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
-                    json_value *item = stringifyJson(vm, entry->value);
+                    json_value *item = stringifyValue(vm, entry->value, &parent);
 
                     if (item == NULL) {
                         json_builder_free(json);
@@ -193,6 +216,10 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     return NULL;
 }
 
+json_value* stringifyJson(DictuVM *vm, Value value) {
+    return stringifyValue(vm, value, NULL);
+}
+
 Value stringify(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1 && argCount != 2) {
         runtimeError(vm, "stringify() takes 1 or 2 arguments (%d given).", argCount);
-- 
2.43.0


From e4dcee7f8288ed46f589eb09288490708ad6a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 083/165] fix: JSON.stringify() wrote past its buffer when the
 indent was negative, huge or nan

---
 src/optionals/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 59459fc..a7aca98 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -235,6 +235,11 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
+        if (!(AS_NUMBER(args[1]) >= 0 && AS_NUMBER(args[1]) <= 1000)) {
+            runtimeError(vm, "stringify() second argument must be between 0 and 1000.");
+            return EMPTY_VAL;
+        }
+
         lineType = json_serialize_mode_multiline;
         indent = AS_NUMBER(args[1]);
     }
-- 
2.43.0


From 47afd6f604e9d0dea4d0f48c4150f6166e1a4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 084/165] fix: JSON.parse() decoded surrogate pairs of
 characters beyond U+1FFFF wrongly

---
 src/optionals/json/jsonParseLib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 9e05f8d..83568a5 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -348,7 +348,7 @@ json_value * json_parse_ex (json_settings * settings,
                                 uc_b2 = (uc_b3 << 4) | uc_b4;
                                 uchar2 = (uc_b1 << 8) | uc_b2;
 
-                                uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                                uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                             }
 
                             if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From c581351c47e733242cb1af1d68e6a1adb670c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 085/165] fix: JSON.parse() read decimal numbers inexactly, and
 long integers wrongly after a decimal number

---
 src/optionals/json/jsonParseLib.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 83568a5..8a15c65 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -250,6 +250,7 @@ json_value * json_parse_ex (json_settings * settings,
     json_state state = { 0 };
     double num_digits = 0, num_e = 0;
     double num_fraction = 0;
+    const json_char * num_start = json;
 
     /* Skip UTF-8 BOM
      */
@@ -676,7 +677,9 @@ json_value * json_parse_ex (json_settings * settings,
 
                                     flags &= ~ (flag_num_negative | flag_num_e |
                                                 flag_num_e_got_sign | flag_num_e_negative |
-                                                flag_num_zero);
+                                                flag_num_zero | flag_num_got_decimal);
+
+                                    num_start = state.ptr;
 
                                     num_digits = 0;
                                     num_fraction = 0;
@@ -854,13 +857,10 @@ json_value * json_parse_ex (json_settings * settings,
                             top->u.dbl *= pow (10.0, ((flags & flag_num_e_negative) ? - num_e : num_e));
                         }
 
-                        if (flags & flag_num_negative)
-                        {
-                            if (top->type == json_integer)
-                                top->u.integer = - top->u.integer;
-                            else
-                                top->u.dbl = - top->u.dbl;
-                        }
+                        if (top->type == json_double)
+                            top->u.dbl = strtod (num_start, NULL);
+                        else if (flags & flag_num_negative)
+                            top->u.integer = - top->u.integer;
 
                         flags |= flag_next | flag_reproc;
                         break;
-- 
2.43.0


From 8aeb36b5b18b1dcba6c5a1a520fc72742e94af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 086/165] fix: JSON.parse() accepted a minus sign without
 digits as a number

---
 src/optionals/json/jsonParseLib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 8a15c65..75f6c4c 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -819,6 +819,11 @@ json_value * json_parse_ex (json_settings * settings,
                             continue;
                         }
 
+                        if (top->type == json_integer && !num_digits)
+                        {  sprintf (error, "%u:%u: Expected digit after `-`", line_and_col);
+                            goto e_failed;
+                        }
+
                         if (! (flags & flag_num_e))
                         {
                             if (top->type == json_double)
-- 
2.43.0


From 4634a926118e07478610d4b0be94f3486393f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 087/165] fix: JSON.parse() ignored everything after a NUL
 character

---
 src/optionals/json/jsonParseLib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 75f6c4c..0378e68 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -514,7 +514,7 @@ json_value * json_parse_ex (json_settings * settings,
 
             if (flags & flag_done)
             {
-                if (!b)
+                if (state.ptr == end)
                     break;
 
                 switch (b)
-- 
2.43.0


From e7e09ec6f9f1d62a74fa0d83abb6ebd141632b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 088/165] fix: the values of a queue that wraps around were
 freed while it was full, and freed ones were visited when it was empty

---
 src/optionals/queue.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..9996f16 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,26 +34,8 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
 
     if (queue == NULL) return;
 
-    if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        return;
-    }
-
-    if (queue->rear + 1 < queue->front) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        for (int i = 0; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-    } else {
-        for (int i = queue->front; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
+    for (int i = 0; i < queue->count; ++i) {
+        grayValue(vm, queue->dq[(queue->front + i) % queue->capacity]);
     }
 }
 
-- 
2.43.0


From 054cac5fe2af3c8612232852ace99d63e982168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 089/165] fix: a queue that grew while wrapped around lost its
 order

---
 src/optionals/queue.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 9996f16..8f8afcc 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -106,8 +106,16 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int newCapacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, newCapacity);
+        queue->capacity = newCapacity;
+
+        if (queue->front > 0) {
+            // The front of the queue is stored after its rear, move it to the new end
+            int tail = oldCapacity - queue->front;
+            memmove(queue->dq + newCapacity - tail, queue->dq + queue->front, sizeof(Value) * tail);
+            queue->front = newCapacity - tail;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From 3cc180abd1315cab87e84b858cb18924e699ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 090/165] fix: peek() on an empty queue returned memory that
 was never written

---
 src/optionals/queue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 8f8afcc..6c303ee 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -92,7 +92,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
-- 
2.43.0


From 80e839634a7732363cf2ffbda92733d85b4bc7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 091/165] fix: peek() on an empty stack read outside the stack

---
 src/optionals/stack.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..0728071 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
-- 
2.43.0


From ff7072435a23a300a228b6c55c943137ce2e0b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 092/165] fix: Queue.newWithSize() and Stack.newWithSize()
 accepted nan, fractions below 1 and sizes beyond what an int holds

---
 src/optionals/queue.c | 5 +++--
 src/optionals/stack.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 6c303ee..20d7028 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "queue.h"
@@ -247,8 +248,8 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
-        return newResultError(vm, "capacity must be greater than 0");
+    if (!(capacity >= 1) || capacity > INT_MAX / 2) {
+        return newResultError(vm, capacity > 0 ? "capacity is not supported" : "capacity must be greater than 0");
     }
 
     return newResultSuccess(vm, OBJ_VAL(newQueueObj(vm, capacity)));
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 0728071..87151c8 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "stack.h"
@@ -192,8 +193,8 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
-        return newResultError(vm, "capacity must be greater than 0");
+    if (!(capacity >= 1) || capacity > INT_MAX / 2) {
+        return newResultError(vm, capacity > 0 ? "capacity is not supported" : "capacity must be greater than 0");
     }
 
     return OBJ_VAL(newResultSuccess(vm, OBJ_VAL(newStackObj(vm, capacity))));
-- 
2.43.0


From 7dbbab2bbb78637e9d24bbe9f3772f1214ea9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 093/165] fix: Math.max() and min() crashed on an empty list
 and returned a first argument that is not a number

---
 src/optionals/math.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 2899cf1..3b80fce 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -87,14 +87,21 @@ static Value absNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value maxNative(DictuVM *vm, int argCount, Value *args) {
-    if (argCount == 0) {
-        return NUMBER_VAL(0);
-    } else if (argCount == 1 && IS_LIST(args[0])) {
+    if (argCount == 1 && IS_LIST(args[0])) {
         ObjList *list = AS_LIST(args[0]);
         argCount = list->values.count;
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to max()");
+        return EMPTY_VAL;
+    }
+
     double maximum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
@@ -115,14 +122,21 @@ static Value maxNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value minNative(DictuVM *vm, int argCount, Value *args) {
-    if (argCount == 0) {
-        return NUMBER_VAL(0);
-    } else if (argCount == 1 && IS_LIST(args[0])) {
+    if (argCount == 1 && IS_LIST(args[0])) {
         ObjList *list = AS_LIST(args[0]);
         argCount = list->values.count;
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "A non-number value passed to min()");
+        return EMPTY_VAL;
+    }
+
     double minimum = AS_NUMBER(args[0]);
 
     for (int i = 1; i < argCount; ++i) {
-- 
2.43.0


From cbf1eea70f1b72c5a1359974b6ddb89c53fe014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 094/165] fix: Math.average() of an empty list was nan instead
 of the 0 it returns without arguments

---
 src/optionals/math.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 3b80fce..67c3550 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -5,14 +5,16 @@
 static Value averageNative(DictuVM *vm, int argCount, Value *args) {
     double average = 0;
 
-    if (argCount == 0) {
-        return NUMBER_VAL(0);
-    } else if (argCount == 1 && IS_LIST(args[0])) {
+    if (argCount == 1 && IS_LIST(args[0])) {
         ObjList *list = AS_LIST(args[0]);
         argCount = list->values.count;
         args = list->values.values;
     }
 
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
+
     for (int i = 0; i < argCount; ++i) {
         Value value = args[i];
         if (!IS_NUMBER(value)) {
-- 
2.43.0


From 839af2e965a28c1caf791da82f69013253cc61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 095/165] fix: Math.abs(-0) was -0

---
 src/optionals/math.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 67c3550..8d44e95 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -80,12 +80,7 @@ static Value absNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    double absValue = AS_NUMBER(args[0]);
-
-    if (absValue < 0)
-        return NUMBER_VAL(absValue * -1);
-
-    return NUMBER_VAL(absValue);
+    return NUMBER_VAL(fabs(AS_NUMBER(args[0])));
 }
 
 static Value maxNative(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 820d055fb5cddc4a5d1b8ad44d9e9a2328075b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 096/165] fix: Math.gcd() and lcm() were wrong for negative and
 large numbers, lcm(0, 0) crashed

---
 src/optionals/math.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 8d44e95..aa8657f 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -232,10 +232,12 @@ static Value tanNative(DictuVM *vm, int argCount, Value *args) {
     return NUMBER_VAL(tan(AS_NUMBER(args[0])));
 }
 
-static long long gcd(long long a, long long b) {
-    long long r;
+static double gcd(double a, double b) {
+    double r;
+    a = fabs(a);
+    b = fabs(b);
     while (b > 0) {
-        r = a % b;
+        r = fmod(a, b);
         a = b;
         b = r;
     }
@@ -270,26 +272,23 @@ static Value gcdNative(DictuVM *vm, int argCount, Value *args) {
     double* as_doubles = ALLOCATE(vm, double, argCount);
     for (int i = 0; i < argCount; ++i) {
         as_doubles[i] = AS_NUMBER(args[i]);
-        if (fabs(round(as_doubles[i]) - as_doubles[i]) > FLOAT_TOLERANCE) {
+        if (!(fabs(round(as_doubles[i]) - as_doubles[i]) <= FLOAT_TOLERANCE)) {
             runtimeError(vm, notWholeError, as_doubles[i], i);
             FREE_ARRAY(vm, double, as_doubles, argCount);
             return EMPTY_VAL;
         }
     }
 
-    long long* as_longlongs = ALLOCATE(vm, long long, argCount);
-    for (int i = 0; i < argCount; ++i) as_longlongs[i] = round(as_doubles[i]);
-
-    long long result = as_longlongs[0];
-    for (int i = 1; i < argCount; ++i) result = gcd(result, as_longlongs[i]);
+    double result = fabs(round(as_doubles[0]));
+    for (int i = 1; i < argCount; ++i) result = gcd(result, round(as_doubles[i]));
 
     FREE_ARRAY(vm, double, as_doubles, argCount);
-    FREE_ARRAY(vm, long long, as_longlongs, argCount);
     return NUMBER_VAL(result);
 }
 
-long long lcm(long long a, long long b) {
-    return (a * b) / gcd(a, b);
+static double lcm(double a, double b) {
+    if (a == 0 || b == 0) return 0;
+    return fabs(a) / gcd(a, b) * fabs(b);
 }
 
 static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
@@ -320,21 +319,17 @@ static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
     double* as_doubles = ALLOCATE(vm, double, argCount);
     for (int i = 0; i < argCount; ++i) {
         as_doubles[i] = AS_NUMBER(args[i]);
-        if (fabs(round(as_doubles[i]) - as_doubles[i]) > FLOAT_TOLERANCE) {
+        if (!(fabs(round(as_doubles[i]) - as_doubles[i]) <= FLOAT_TOLERANCE)) {
             runtimeError(vm, notWholeError, as_doubles[i], i);
             FREE_ARRAY(vm, double, as_doubles, argCount);
             return EMPTY_VAL;
         }
     }
 
-    long long* as_longlongs = ALLOCATE(vm, long long, argCount);
-    for (int i = 0; i < argCount; ++i) as_longlongs[i] = round(as_doubles[i]);
-
-    long long result = as_longlongs[0];
-    for (int i = 1; i < argCount; ++i) result = lcm(result, as_longlongs[i]);
+    double result = fabs(round(as_doubles[0]));
+    for (int i = 1; i < argCount; ++i) result = lcm(result, round(as_doubles[i]));
 
     FREE_ARRAY(vm, double, as_doubles, argCount);
-    FREE_ARRAY(vm, long long, as_longlongs, argCount);
     return NUMBER_VAL(result);
 }
 
-- 
2.43.0


From f05014d81d34e1e105102903aa60c6e9331bf0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 097/165] fix: Path.basename() of a name of one character was
 empty

---
 src/optionals/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b7336f4..cfd4a23 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -58,7 +58,7 @@ static Value basenameNative(DictuVM *vm, int argCount, Value *args) {
     char *path = PathString->chars;
     int len = PathString->length;
 
-    if (!len || (len == 1 && !IS_DIR_SEPARATOR(*path))) {
+    if (!len) {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
-- 
2.43.0


From e287c11d4656f2ba8838a27e57ef7672c4097c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 098/165] fix: Path.basename() and dirname() treated a trailing
 separator as a component of its own

---
 src/optionals/path.c | 2 ++
 src/vm/util.c        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index cfd4a23..aa3a906 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -62,6 +62,8 @@ static Value basenameNative(DictuVM *vm, int argCount, Value *args) {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
+    while (len > 1 && IS_DIR_SEPARATOR(path[len - 1])) --len;
+
     char *p = path + len - 1;
     while (p > path && !IS_DIR_SEPARATOR(*(p - 1))) --p;
 
diff --git a/src/vm/util.c b/src/vm/util.c
index aa7e9de..71b8103 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -38,7 +38,7 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         return copyString(vm, ".", 1);
     }
 
-    char *sep = path + len;
+    char *sep = path + len - 1;
 
     /* trailing slashes */
     while (sep != path) {
-- 
2.43.0


From f64ed1b51d59390b2a2da46e7af31fa4968dece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 099/165] fix: Path.extname() took a dot in the name of a
 directory for an extension

---
 src/optionals/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index aa3a906..e587df9 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -91,9 +91,9 @@ static Value extnameNative(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *p = path + len;
-    while (p > path && (*(p - 1) != '.')) --p;
+    while (p > path && *(p - 1) != '.' && !IS_DIR_SEPARATOR(*(p - 1))) --p;
 
-    if (p == path) {
+    if (p == path || *(p - 1) != '.') {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
-- 
2.43.0


From 55b7dd974933900fae14490d543a4152701b5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 100/165] fix: Path.isDir() of a path that does not exist read
 uninitialised memory

---
 src/optionals/path.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index e587df9..16be119 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -148,9 +148,8 @@ static Value isdirNative(DictuVM *vm, int argCount, Value *args) {
 
     char *path = AS_CSTRING(args[0]);
     struct stat path_stat;
-    stat(path, &path_stat);
 
-    if (S_ISDIR(path_stat.st_mode))
+    if (stat(path, &path_stat) == 0 && S_ISDIR(path_stat.st_mode))
         return TRUE_VAL;
 
     return FALSE_VAL;
-- 
2.43.0


From 5ef930d368c6b63dda2ec9e985acf7fb0e1e1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 101/165] fix: Path.join() read and wrote outside its strings
 when given empty parts or only separators

---
 src/optionals/path.c | 65 +++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 16be119..49a3f06 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -259,57 +259,42 @@ static Value joinNative(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString* part;
-    // resultSize = # of dir separators that will be used + length of each string arg
-    size_t resultSize = abs(argCount - 1); // abs is needed here because of a clang bug
-    for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
-        resultSize += part->length;
-        // Account for leading DIR_SEPARATOR chars to be removed
-        for (int j = 0; j < part->length; ++j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-        // Account for trailing DIR_SEPARATOR chars to be removed
-        for (int j = part->length - 1; j >= 0; --j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-    }
-    // Account for leading/trailing DIR_SEPARATOR on the first/last part respectively
-    part = AS_STRING(args[0]);
-    resultSize += part->chars[0] == DIR_SEPARATOR;
-    part = AS_STRING(args[argCount - 1]);
-    resultSize += part->chars[part->length - 1] == DIR_SEPARATOR;
+    // Every part may be preceded by a separator and the last one followed by one
+    size_t size = argCount + 2;
+    for (int i = 0; i < argCount; ++i) size += AS_STRING(args[i])->length;
 
-    char* str = ALLOCATE(vm, char, resultSize + 1);
+    char* str = ALLOCATE(vm, char, size);
     char* dest = str;
     for (int i = 0; i < argCount; ++i) {
         part = AS_STRING(args[i]);
 
         // Skip leading DIR_SEPARATOR characters on everything except for one on the first part,
         // and trailing DIR_SEPARATOR characters on everything except for one on the last part.
-        // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc' instead of '///tmp////abc///'
+        // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc/' instead of '///tmp////abc///'
         int start = 0;
-        while (part->chars[start++] == DIR_SEPARATOR);
-        int end = part->length - 1;
-        while (part->chars[end--] == DIR_SEPARATOR);
-
-        bool lastIteration = i == argCount - 1;
-
-        // Check if the first part starts with a DIR_SEPARATOR so that we can preserve it
-        bool firstLeadingDirSep = !i && part->chars[0] == DIR_SEPARATOR;
-
-        // Check if the last part ends with a DIR_SEPARATOR so that we can preserve it
-        bool lastTrailingDirSep = lastIteration && part->chars[part->length - 1] == DIR_SEPARATOR;
-
-        // Append the part string to the end of dest
-        for (int j = start - 1 - firstLeadingDirSep; j <= end + 1 + lastTrailingDirSep; ++j)
-            *dest++ = part->chars[j];
+        while (start < part->length && part->chars[start] == DIR_SEPARATOR) ++start;
+        int end = part->length;
+        while (end > start && part->chars[end - 1] == DIR_SEPARATOR) --end;
+
+        // Preserve a leading DIR_SEPARATOR of the first part
+        if (i == 0 && start > 0) *dest++ = DIR_SEPARATOR;
+
+        // Append the part string to the end of dest, parts without content add nothing
+        if (start < end) {
+            if (dest > str && dest[-1] != DIR_SEPARATOR) *dest++ = DIR_SEPARATOR;
+            memcpy(dest, part->chars + start, end - start);
+            dest += end - start;
+        }
 
-        // Append a DIR_SEPARATOR if necessary
-        if (!lastIteration && part->chars[end + 1] != DIR_SEPARATOR) *dest++ = DIR_SEPARATOR;
+        // Preserve a trailing DIR_SEPARATOR of the last part
+        bool trailingDirSep = part->length > 0 && part->chars[part->length - 1] == DIR_SEPARATOR;
+        if (i == argCount - 1 && trailingDirSep && (dest == str || dest[-1] != DIR_SEPARATOR))
+            *dest++ = DIR_SEPARATOR;
     }
 
+    size_t resultSize = dest - str;
+    str = SHRINK_ARRAY(vm, str, char, size, resultSize + 1);
+
     return OBJ_VAL(takeString(vm, str, resultSize));
 }
 
-- 
2.43.0


From b11f40d11aafcd0a840579f6e824c039c5558a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 102/165] fix: Random.range() crashed or left its bounds when
 they were reversed, fractional, nan or far apart

---
 src/optionals/random.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 05afe32..df8a535 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -24,10 +24,18 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int upper = AS_NUMBER(args[1]);
-    int lower = AS_NUMBER(args[0]);
-    int random_val = (rand() % (upper - lower + 1)) + lower;
-    return NUMBER_VAL(random_val);
+    double upper = floor(AS_NUMBER(args[1]));
+    double lower = ceil(AS_NUMBER(args[0]));
+    double count = upper - lower + 1;
+
+    // Also refuses nan and infinite bounds
+    if (!(count >= 1) || count - count != 0) {
+        runtimeError(vm, "range() needs an integer between its arguments");
+        return EMPTY_VAL;
+    }
+
+    double random_val = lower + floor(rand() / ((double)RAND_MAX + 1) * count);
+    return NUMBER_VAL(random_val > upper ? upper : random_val);
 }
 
 static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From fa35b213c8e7b21efad1187bb4e179a56e3d5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 103/165] fix: Random.select() of an empty list divided by zero

---
 src/optionals/random.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index df8a535..f96bd4f 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -53,6 +53,11 @@ static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
     argCount = list->values.count;
     args = list->values.values;
 
+    if (argCount == 0) {
+        runtimeError(vm, "select() argument must not be empty");
+        return EMPTY_VAL;
+    }
+
     int index = rand() % argCount;
     return args[index];
 }
-- 
2.43.0


From 9f8dbe5dbfabb94df673623975ca067ed31c9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 104/165] fix: keep a one-character directory in dirname
 instead of returning '.'

---
 src/vm/util.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index 71b8103..cb2a614 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -54,6 +54,11 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         sep--;
     }
 
+    /* no separator before the last component */
+    if (!IS_DIR_SEPARATOR(*sep)) {
+        return copyString(vm, ".", 1);
+    }
+
     /* trim again */
     while (sep != path) {
         if (0 == IS_DIR_SEPARATOR (*sep))
@@ -61,10 +66,6 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         sep--;
     }
 
-    if (sep == path && !IS_DIR_SEPARATOR(*sep)) {
-        return copyString(vm, ".", 1);
-    }
-
     len = sep - path + 1;
 
     return copyString(vm, path, len);
-- 
2.43.0


From 7aec72096cd84a788241096e94e5da497735da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:07 +0000
Subject: [PATCH 105/165] fix: accept an empty HMAC key instead of using an
 uninitialised one

---
 src/optionals/hashlib/hmac.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optionals/hashlib/hmac.c b/src/optionals/hashlib/hmac.c
index 529800e..2d89c85 100644
--- a/src/optionals/hashlib/hmac.c
+++ b/src/optionals/hashlib/hmac.c
@@ -54,8 +54,7 @@ int tc_hmac_set_key(TCHmacState_t ctx, const uint8_t *key,
 {
     /* Input sanity check */
     if (ctx == (TCHmacState_t) 0 ||
-        key == (const uint8_t *) 0 ||
-        key_size == 0) {
+        key == (const uint8_t *) 0) {
         return TC_CRYPTO_FAIL;
     }
 
-- 
2.43.0


From 9e01e906f7e10105c483972eb8f5a9f2c96e8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 106/165] fix: clamp bcrypt rounds before they are narrowed to
 a byte (a negative count asked for 2^31 rounds)

---
 src/optionals/hashlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index ba8af5e..8e00f34 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -101,7 +101,10 @@ static Value bcrypt(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        rounds = AS_NUMBER(args[1]);
+        double requested = AS_NUMBER(args[1]);
+
+        // bcrypt works with 2^4 to 2^31 rounds
+        rounds = requested >= 31 ? 31 : requested >= 4 ? (int) requested : 4;
     }
 
     char *salt = bcrypt_gensalt(rounds);
-- 
2.43.0


From b004dd29394485224302a250d3ea903e8feeace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 107/165] fix: BigInt printed -0 for a zero that came from
 negative operands

---
 src/optionals/bigint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 4d6b85c..fc73800 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -142,6 +142,11 @@ static Value newBigIntValue(DictuVM *vm, BigIntData *bi) {
         return newResultError(vm, "error: failed to instantiate bigint");
     }
 
+    // There is only one zero
+    if (bi->value.size == 0) {
+        bigint_set_neg(&bi->value, 0);
+    }
+
     ObjAbstract *abstract = newAbstract(vm, &freeBigInt, &bigIntToString);
     push(vm, OBJ_VAL(abstract));
     abstract->data = bi;
-- 
2.43.0


From 0d100335f1305d04424c93adf584e04dfce5f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 108/165] fix: BigInt bitwiseAnd() and bitwiseXor() left
 leading zero words, so the result compared unequal to the same number

---
 src/optionals/bigint/bigint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index 30f58dd..5779a47 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -1131,6 +1131,8 @@ bigint* bigint_and(bigint *r, const bigint *a, const bigint *b){
         r->words[i] &= a->words[i];
     }
 
+    r->size = bigint_raw_truncate(r->words, r->size);
+
     return r;
 }
 
@@ -1155,6 +1157,8 @@ bigint* bigint_xor(bigint *r, const bigint *a, const bigint *b){
         r->words[i] ^= b->words[i];
     }
 
+    r->size = bigint_raw_truncate(r->words, r->size);
+
     return r;
 }
 
-- 
2.43.0


From 093ea841f1b2fddf7832aeba229f4d005c016ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 109/165] fix: BigInt.new() accepted a string without any digit

---
 src/optionals/bigint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index fc73800..852c911 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -59,6 +59,10 @@ static bool isIntString(Value val) {
         i = 1;
     }
 
+    if (i == str->length) {
+        return false;
+    }
+
     for (; i < str->length; i++) {
         if (!isdigit(str->chars[i])) {
             return false;
-- 
2.43.0


From ebcbfe1876c8b3f1ab512298e8fc107cb6e6a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 110/165] fix: comparing two negative BigInts of different
 lengths swapped their sizes

---
 src/optionals/bigint/bigint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/bigint/bigint.c b/src/optionals/bigint/bigint.c
index 5779a47..4262a65 100644
--- a/src/optionals/bigint/bigint.c
+++ b/src/optionals/bigint/bigint.c
@@ -167,7 +167,7 @@ int bigint_raw_cmp(
     if (na == 0 && nb == 0) return 0;
 
     if (!a_neg && !b_neg) return bigint_raw_cmp_abs(a, na, b, nb);
-    if ( a_neg &&  b_neg) return bigint_raw_cmp_abs(b, na, a, nb);
+    if ( a_neg &&  b_neg) return bigint_raw_cmp_abs(b, nb, a, na);
 
     return (!a_neg && b_neg) ? +1 : -1;
 }
-- 
2.43.0


From 4170e5e4e52d8c4bfeabbe31eb76247cb7b56280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 111/165] fix: JSON.parse() accepted a trailing comma

---
 src/optionals/json/jsonParseLib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 0378e68..e1480de 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -537,7 +537,8 @@ json_value * json_parse_ex (json_settings * settings,
 
                     case ']':
 
-                        if (top && top->type == json_array)
+                        if (top && top->type == json_array
+                            && (flags & flag_need_comma || top->u.array.length == 0))
                             flags = (flags & ~ (flag_need_comma | flag_seek_value)) | flag_next;
                         else
                         {  sprintf (error, "%u:%u: Unexpected ]", line_and_col);
@@ -728,6 +729,11 @@ json_value * json_parse_ex (json_settings * settings,
 
                             case '}':
 
+                                if (! (flags & flag_need_comma) && top->u.object.length > 0)
+                                {  sprintf (error, "%u:%u: Unexpected } after ,", line_and_col);
+                                    goto e_failed;
+                                }
+
                                 flags = (flags & ~ flag_need_comma) | flag_next;
                                 break;
 
-- 
2.43.0


From 87e1be46900f5463faae183fd94f38f5a22182cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 112/165] fix: JSON.parse() accepted escape sequences that JSON
 does not have

---
 src/optionals/json/jsonParseLib.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index e1480de..aaab8ba 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -393,8 +393,13 @@ json_value * json_parse_ex (json_settings * settings,
 
                             break;
 
-                        default:
+                        case '"': case '\\': case '/':
                             string_add (b);
+                            break;
+
+                        default:
+                            sprintf (error, "Invalid escape sequence (at %u:%u)", line_and_col);
+                            goto e_failed;
                     };
 
                     continue;
-- 
2.43.0


From 3ebb3e8d9fc07808798e27ead811a94b7f593170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 113/165] fix: JSON.parse() accepted control characters inside
 strings

---
 src/optionals/json/jsonParseLib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index aaab8ba..b364c55 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -450,6 +450,10 @@ json_value * json_parse_ex (json_settings * settings,
                             break;
                     };
                 }
+                else if ((unsigned char) b < 0x20)
+                {  sprintf (error, "Unexpected control character in string (at %u:%u)", line_and_col);
+                    goto e_failed;
+                }
                 else
                 {
                     string_add (b);
-- 
2.43.0


From 6fc489bf99daa3ac6e6eb02ceaf4df053fce84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 114/165] fix: JSON.parse() combined unpaired surrogates into
 unrelated characters

---
 src/optionals/json/jsonParseLib.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index b364c55..5ec6f84 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -335,7 +335,7 @@ json_value * json_parse_ex (json_settings * settings,
                             if ((uchar & 0xF800) == 0xD800) {
                                 json_uchar uchar2;
 
-                                if (end - state.ptr <= 6 || (*++ state.ptr) != '\\' || (*++ state.ptr) != 'u' ||
+                                if (uchar >= 0xDC00 || end - state.ptr <= 6 || (*++ state.ptr) != '\\' || (*++ state.ptr) != 'u' ||
                                     (uc_b1 = hex_value (*++ state.ptr)) == 0xFF ||
                                     (uc_b2 = hex_value (*++ state.ptr)) == 0xFF ||
                                     (uc_b3 = hex_value (*++ state.ptr)) == 0xFF ||
@@ -349,6 +349,12 @@ json_value * json_parse_ex (json_settings * settings,
                                 uc_b2 = (uc_b3 << 4) | uc_b4;
                                 uchar2 = (uc_b1 << 8) | uc_b2;
 
+                                if ((uchar2 & 0xFC00) != 0xDC00)
+                                {
+                                    sprintf (error, "Invalid surrogate pair (at %u:%u)", line_and_col);
+                                    goto e_failed;
+                                }
+
                                 uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                             }
 
-- 
2.43.0


From 35025641e892cafd4e757997b27585ae2dce16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 115/165] fix: JSON.stringify() formatted a number in its
 output buffer, where the form it does not keep can be the longer one

---
 src/optionals/json/jsonBuilderLib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index c5b958f..62db0ef 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -752,6 +752,8 @@ void json_serialize_ex (json_char * buf, json_value * value, json_serialize_opts
     json_int_t integer, orig_integer;
     json_object_entry * entry;
     json_char * ptr;
+    json_char number [32];
+    int length;
     int indent = 0;
     char indent_char;
     int i;
@@ -899,7 +901,9 @@ void json_serialize_ex (json_char * buf, json_value * value, json_serialize_opts
             case json_double:
 
                 ptr = buf;
-                buf += format_double (buf, value->u.dbl);
+                length = format_double (number, value->u.dbl);
+                memcpy (buf, number, length + 1);
+                buf += length;
 
                 json_char *dot;
 
-- 
2.43.0


From fd3bdd524e76980930221db4dde25fb7796f0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 116/165] fix: JSON.parse() refused a fraction after an integer
 part too long for an integer

---
 src/optionals/json/jsonParseLib.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 5ec6f84..c60b12d 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -825,15 +825,18 @@ json_value * json_parse_ex (json_settings * settings,
                                 continue;
                             }
                         }
-                        else if (b == '.' && top->type == json_integer)
+                        else if (b == '.' && ! (flags & (flag_num_got_decimal | flag_num_e)))
                         {
                             if (!num_digits)
                             {  sprintf (error, "%u:%u: Expected digit before `.`", line_and_col);
                                 goto e_failed;
                             }
 
-                            top->type = json_double;
-                            top->u.dbl = (double) top->u.integer;
+                            if (top->type == json_integer)
+                            {
+                                top->type = json_double;
+                                top->u.dbl = (double) top->u.integer;
+                            }
 
                             flags |= flag_num_got_decimal;
                             num_digits = 0;
-- 
2.43.0


From 632ea08d5591ca7a8d157923f14089bdec7f426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 117/165] fix: a declaration after the 256th constant of a
 chunk read another constant as its name and crashed the compiler

---
 src/vm/compiler.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index ffcc548..2f57204 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -134,6 +134,14 @@ static uint8_t makeConstant(Compiler *compiler, Value value) {
     return (uint8_t) constant;
 }
 
+// The name held by a constant. With too many constants in the chunk, which
+// is reported already, the index may be that of any other value.
+static ObjString *constantName(Compiler *compiler, uint8_t constant) {
+    Value name = currentChunk(compiler)->constants.values[constant];
+
+    return IS_STRING(name) ? AS_STRING(name) : compiler->parser->vm->initString;
+}
+
 static void emitConstant(Compiler *compiler, Value value) {
     compiler->secondLastConstant = compiler->lastConstant;
     compiler->lastConstant = currentChunk(compiler)->count;
@@ -435,7 +443,7 @@ static void defineVariable(Compiler *compiler, uint8_t global, bool constant) {
     if (compiler->scopeDepth == 0) {
         if (constant) {
             tableSet(compiler->parser->vm, &compiler->parser->module->constants,
-                     AS_STRING(currentChunk(compiler)->constants.values[global]), NIL_VAL);
+                     constantName(compiler, global), NIL_VAL);
         }
 
         emitBytes(compiler, OP_DEFINE_MODULE, global);
@@ -885,7 +893,7 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 privateIndexes[fnCompiler->function->privatePropertyCount++] = index;
 
                 tableSet(compiler->parser->vm, &compiler->class->privateVariables,
-                        AS_STRING(currentChunk(fnCompiler)->constants.values[paramConstant]), EMPTY_VAL);
+                        constantName(fnCompiler, paramConstant), EMPTY_VAL);
             } else if (privateKeyword) {
                 error(fnCompiler->parser, "private keyword in a function definition that is not a class constructor");
             }
@@ -1287,7 +1295,7 @@ static void checkConst(Compiler *compiler, uint8_t setOp, int arg) {
         }
     } else if (setOp == OP_SET_MODULE) {
         Value _;
-        if (tableGet(&compiler->parser->module->constants, AS_STRING(currentChunk(compiler)->constants.values[arg]), &_)) {
+        if (tableGet(&compiler->parser->module->constants, constantName(compiler, arg), &_)) {
             error(compiler->parser, "Cannot assign to a constant.");
         }
     }
@@ -1717,7 +1725,7 @@ static void method(Compiler *compiler, bool private, LangToken *identifier, bool
 
         Value existingDict;
         dictGet(compiler->methodAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-        ObjString *methodName = AS_STRING(currentChunk(compiler)->constants.values[constant]);
+        ObjString *methodName = constantName(compiler, constant);
         dictSet(vm, compiler->methodAnnotations, OBJ_VAL(methodName), existingDict);
         dictDelete(vm, compiler->methodAnnotations, OBJ_VAL(vm->annotationString));
 
@@ -2008,7 +2016,7 @@ static void parseClassBody(Compiler *compiler) {
 
             if (hasAnnotation) {
                 DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
+                ObjString *varName = constantName(compiler, name);
 
                 Value existingDict;
                 dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
@@ -2029,7 +2037,7 @@ static void parseClassBody(Compiler *compiler) {
 
             if (hasAnnotation) {
                 DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
+                ObjString *varName = constantName(compiler, name);
 
                 Value existingDict;
                 dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
@@ -2054,7 +2062,7 @@ static void parseClassBody(Compiler *compiler) {
                         uint8_t name = identifierConstant(compiler, &compiler->parser->previous);
                         consume(compiler, TOKEN_SEMICOLON, "Expect ';' after private variable declaration.");
                         tableSet(compiler->parser->vm, &compiler->class->privateVariables,
-                                 AS_STRING(currentChunk(compiler)->constants.values[name]), EMPTY_VAL);
+                                 constantName(compiler, name), EMPTY_VAL);
                         continue;
                     }
 
-- 
2.43.0


From 6e310319f2bdcf8c08a440557481e48472021943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 118/165] fix: annotations followed by something they cannot
 annotate crashed the compiler

---
 src/vm/compiler.c | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2f57204..24e36ff 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1680,6 +1680,20 @@ static void function(Compiler *compiler, FunctionType type, AccessLevel level) {
     endCompiler(&fnCompiler);
 }
 
+// Files the annotations just parsed under the name of what they annotate.
+static void nameAnnotations(Compiler *compiler, ObjDict *annotations, uint8_t constant) {
+    DictuVM *vm = compiler->parser->vm;
+    Value pending;
+
+    if (annotations == NULL || !dictGet(annotations, OBJ_VAL(vm->annotationString), &pending)) {
+        error(compiler->parser, "Annotations only allowed on methods and class variables.");
+        return;
+    }
+
+    dictSet(vm, annotations, OBJ_VAL(constantName(compiler, constant)), pending);
+    dictDelete(vm, annotations, OBJ_VAL(vm->annotationString));
+}
+
 static void method(Compiler *compiler, bool private, LangToken *identifier, bool *hasAnnotation) {
     AccessLevel level = ACCESS_PUBLIC;
     FunctionType type;
@@ -1721,14 +1735,7 @@ static void method(Compiler *compiler, bool private, LangToken *identifier, bool
     }
 
     if (*hasAnnotation) {
-        DictuVM *vm = compiler->parser->vm;
-
-        Value existingDict;
-        dictGet(compiler->methodAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-        ObjString *methodName = constantName(compiler, constant);
-        dictSet(vm, compiler->methodAnnotations, OBJ_VAL(methodName), existingDict);
-        dictDelete(vm, compiler->methodAnnotations, OBJ_VAL(vm->annotationString));
-
+        nameAnnotations(compiler, compiler->methodAnnotations, constant);
         *hasAnnotation = false;
     }
 
@@ -2015,14 +2022,7 @@ static void parseClassBody(Compiler *compiler) {
             emitByte(compiler, false);
 
             if (hasAnnotation) {
-                DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = constantName(compiler, name);
-
-                Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
-
+                nameAnnotations(compiler, compiler->fieldAnnotations, name);
                 hasAnnotation = false;
             }
 
@@ -2036,14 +2036,7 @@ static void parseClassBody(Compiler *compiler) {
             emitByte(compiler, true);
 
             if (hasAnnotation) {
-                DictuVM *vm = compiler->parser->vm;
-                ObjString *varName = constantName(compiler, name);
-
-                Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
-
+                nameAnnotations(compiler, compiler->fieldAnnotations, name);
                 hasAnnotation = false;
             }
 
-- 
2.43.0


From 7d0f64a2afc7162211adf4174abbeba6c10886d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 119/165] fix: the receiver's local had no defined constness
 when a nested function captured it

---
 src/vm/compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 24e36ff..0a114f5 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -219,6 +219,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
     local->isUpvalue = false;
+    local->constant = false;
     local->isFile = false;
     if (type == TYPE_METHOD || type == TYPE_INITIALIZER) {
         // In a method, it holds the receiver, "this".
-- 
2.43.0


From 68bb5981c004c9f80fed4ad62d567e10f3e63c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:20 +0000
Subject: [PATCH 120/165] fix: folding a minus before an incomplete slice read
 past the constants

---
 src/vm/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 0a114f5..853916b 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1485,6 +1485,12 @@ static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
             if (valueToken == TOKEN_NUMBER) {
                 Chunk *chunk = currentChunk(compiler);
                 uint8_t constant = chunk->code[chunk->count - 1];
+
+                // After a syntax error the number may not be the operand.
+                if (constant >= chunk->constants.count || !IS_NUMBER(chunk->constants.values[constant])) {
+                    return false;
+                }
+
                 chunk->constants.values[constant] = NUMBER_VAL(-AS_NUMBER(chunk->constants.values[constant]));
                 return true;
             }
-- 
2.43.0


From bee32b0a558c7e74835f91f12490c313146e67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 121/165] fix: a number could be followed by x and hexadecimal
 digits that were then ignored

---
 src/vm/scanner.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index f8dae5b..8b8b32f 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -330,8 +330,7 @@ static LangToken number(Scanner *scanner) {
 
 static LangToken hexNumber(Scanner *scanner) {
     while (peek(scanner) == '_') advance(scanner);
-    if (peek(scanner) == '0')advance(scanner);
-    if ((peek(scanner) == 'x') || (peek(scanner) == 'X')) {
+    if (*scanner->start == '0' && (peek(scanner) == 'x' || peek(scanner) == 'X')) {
         advance(scanner);
         if (!isHexDigit(peek(scanner))) return errorToken(scanner, "Invalid hex literal");
         while (isHexDigit(peek(scanner))) advance(scanner);
-- 
2.43.0


From 530e548596f008abff73700cc026cfeb0b835cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 122/165] fix: a multiline comment that is never closed
 silently swallowed the rest of the program

---
 src/vm/scanner.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 8b8b32f..e49941c 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -68,7 +68,8 @@ static LangToken errorToken(Scanner *scanner, const char *message) {
     return token;
 }
 
-static void skipWhitespace(Scanner *scanner) {
+// Returns whether the text ended inside of a multiline comment.
+static bool skipWhitespace(Scanner *scanner) {
     for (;;) {
         char c = peek(scanner);
         switch (c) {
@@ -87,7 +88,7 @@ static void skipWhitespace(Scanner *scanner) {
                     // Ignore shebang line
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
                 } else {
-                    return;
+                    return false;
                 }
                 break;
             case '/':
@@ -103,7 +104,7 @@ static void skipWhitespace(Scanner *scanner) {
                         }
 
                         if (isAtEnd(scanner))
-                            return;
+                            return true;
 
                         if (peekNext(scanner) == '/') {
                             break;
@@ -116,12 +117,12 @@ static void skipWhitespace(Scanner *scanner) {
                     // A comment goes until the end of the line.
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
                 } else {
-                    return;
+                    return false;
                 }
                 break;
 
             default:
-                return;
+                return false;
         }
     }
 }
@@ -366,10 +367,12 @@ static LangToken string(Scanner *scanner, char stringToken) {
 }
 
 LangToken scanToken(Scanner *scanner) {
-    skipWhitespace(scanner);
+    bool openComment = skipWhitespace(scanner);
 
     scanner->start = scanner->current;
 
+    if (openComment) return errorToken(scanner, "Unterminated comment.");
+
     if (isAtEnd(scanner)) return makeToken(scanner, TOKEN_EOF);
 
     char c = advance(scanner);
-- 
2.43.0


From 5c4c9ed298bac672d4e57502e0d6f56213b8e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 123/165] fix: the part of a source file behind a NUL character
 was silently left out

---
 src/cli/main.c | 6 ++++++
 src/vm/util.c  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/cli/main.c b/src/cli/main.c
index 857005f..208ee41 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -183,6 +183,12 @@ static char *readFile(const char *path) {
 
     buffer[bytesRead] = '\0';
 
+    // Source text ends at the first NUL, anything behind it would be ignored.
+    if (strlen(buffer) < bytesRead) {
+        fprintf(stderr, "File \"%s\" contains a NUL character.\n", path);
+        exit(65);
+    }
+
     fclose(file);
     return buffer;
 }
diff --git a/src/vm/util.c b/src/vm/util.c
index cb2a614..ca90062 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -29,6 +29,12 @@ char *readFile(DictuVM *vm, const char *path) {
 
     buffer[bytesRead] = '\0';
 
+    // Source text ends at the first NUL, anything behind it would be ignored.
+    if (strlen(buffer) < bytesRead) {
+        fprintf(stderr, "File \"%s\" contains a NUL character.\n", path);
+        exit(65);
+    }
+
     fclose(file);
     return buffer;
 }
-- 
2.43.0


From 9c16fdf6a0977e631e1c5412adef1a725123006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 124/165] fix: an imported file whose body ran a function
 importing another file was bound to the wrong module

---
 src/vm/vm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3b9d317..926eb1d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2271,6 +2271,12 @@ static DictuInterpretResult run(DictuVM *vm) {
         CASE_CODE(RETURN): {
             Value result = pop(vm);
 
+            // An import in progress continues with the module it imported,
+            // whatever the functions called meanwhile have imported.
+            if (frame->closure->function->type == TYPE_TOP_LEVEL) {
+                vm->lastModule = frame->closure->function->module;
+            }
+
             // Close any upvalues still in scope.
             closeUpvalues(vm, frame->slots);
 
-- 
2.43.0


From 208b947f57f23de4c7f40943b8897a5086d658ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 125/165] fix: a module name was matched by a prefix of it, and
 imports took one with any last character

---
 src/optionals/optionals.c | 2 +-
 src/vm/compiler.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index f2fbe81..602dd72 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -42,7 +42,7 @@ Value importBuiltinModule(DictuVM *vm, int index) {
 
 int findBuiltinModule(char *name, int length, bool *dictuSource) {
     for (int i = 0; modules[i].module != NULL; ++i) {
-        if (strncmp(modules[i].name, name, length) == 0) {
+        if (strlen(modules[i].name) == (size_t) length && memcmp(modules[i].name, name, length) == 0) {
             *dictuSource = modules[i].dictuSource;
 
             return i;
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 853916b..ebd4794 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2718,7 +2718,7 @@ static void importStatement(Compiler *compiler) {
 
         int index = findBuiltinModule(
             (char *) compiler->parser->previous.start,
-            compiler->parser->previous.length - compiler->parser->current.length,
+            compiler->parser->previous.length,
             &dictuSource
         );
 
-- 
2.43.0


From 2c79bcdb3a035b714cb632e597b7b345ce218b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 126/165] fix: imports of a program whose file name has no
 extension, or given with -c and arguments, were looked up in the parent of
 the current directory

---
 src/vm/util.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index ca90062..8d5b209 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -96,24 +96,19 @@ bool resolvePath(char *directory, char *path, char *ret) {
 }
 
 ObjString *getDirectory(DictuVM *vm, char *source) {
-    // Slight workaround to ensure only .du files are the ones
-    // attempted to be found.
-    int len = strlen(source);
-    if (vm->repl || len < 4 || source[len - 3] != '.') {
-        source = "";
+    char res[PATH_MAX];
+
+    if (!vm->repl && resolvePath(".", source, res)) {
+        return dirname(vm, res, strlen(res));
     }
 
-    char res[PATH_MAX];
-    if (!resolvePath(".", source, res)) {
+    // Code which does not come from a file belongs to the current directory.
+    if (!resolvePath(".", "", res)) {
         runtimeError(vm, "Unable to resolve path '%s'", source);
         exit(1);
     }
 
-    if (vm->repl) {
-        return copyString(vm, res, strlen(res));
-    }
-
-    return dirname(vm, res, strlen(res));
+    return copyString(vm, res, strlen(res));
 }
 
 void defineNative(DictuVM *vm, Table *table, const char *name, NativeFn function) {
-- 
2.43.0


From b408945336d719593e8072aef5070236244d6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 127/165] fix: the REPL crashed without a HOME in the
 environment

---
 src/cli/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/main.c b/src/cli/main.c
index 208ee41..3f314dc 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -94,6 +94,11 @@ char *getDictuPath() {
         strncat(dictuPath, tmp, strlen(tmp));
     } else {
         const char *home = getenv("HOME");
+
+        if (home == NULL) {
+            home = ".";
+        }
+
         strncpy(dictuPath, home, strlen(home));
         strncat(dictuPath, DICTU_HOME, strlen(DICTU_HOME));
     }
-- 
2.43.0


From f95cf3a5967a3a9eb5ddbc1363d77dd22e8bd34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 128/165] fix: the REPL waited forever behind a comment or raw
 string holding a quote or brace

---
 src/cli/main.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 3f314dc..72a539b 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <errno.h>
 #if defined(__linux__) || defined(_WIN32)
 #include <limits.h> 
@@ -30,15 +31,36 @@
 #define DICTU_HOME "/.dictu"
 #define DICTU_HIST "/history.txt"
 
+// Returns the index of the last character of a comment starting at i, i if
+// there is none, or -1 if it is not closed.
+static int matchComment(char *line, int i) {
+    if ((line[i] == '/' && line[i + 1] == '/') || (line[i] == '#' && line[i + 1] == '!')) {
+        while (line[i + 1] != '\0' && line[i + 1] != '\n') {
+            i++;
+        }
+    } else if (line[i] == '/' && line[i + 1] == '*') {
+        char *end = strstr(line + i + 2, "*/");
+
+        return end == NULL ? -1 : (int) (end - line) + 1;
+    }
+
+    return i;
+}
+
+static bool isRawString(char *line, int i) {
+    return i > 0 && line[i - 1] == 'r' && (i == 1 || (!isalnum((unsigned char) line[i - 2]) && line[i - 2] != '_'));
+}
+
 static int matchStringLiteral(char* line, int i) {
     char quote = line[i];
-    
+    bool raw = isRawString(line, i);
+
     if (quote != '\'' && quote != '"') {
         return i; // not at beginning of string, return same index
     }
     
     while (line[++i]) {
-        if (line[i] == '\\') {
+        if (line[i] == '\\' && !raw) {
             char skipped = line[++i];
             
             if (skipped == '\0') {
@@ -56,6 +78,17 @@ static bool matchBraces(char *line) {
     int braceLevel = 0;
 
     for (int i = 0; line[i]; i++) {
+        int end = matchComment(line, i);
+
+        if (end == -1) {
+            return false;
+        }
+
+        if (end != i) {
+            i = end;
+            continue;
+        }
+
         i = matchStringLiteral(line, i);
         
         if (i == -1) {
-- 
2.43.0


From 96c1f3f574fb692835f003fc9eb3363ca33694d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:16 +0000
Subject: [PATCH 129/165] fix: import Argparse; bound nil instead of the module

---
 src/optionals/optionals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index 602dd72..94498a1 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -2,7 +2,7 @@
 #include "ffi/ffi.h"
 
 BuiltinModules modules[] = {
-    {"Argparse", &createArgParseModule, false},
+    {"Argparse", &createArgParseModule, true},
     {"Math", &createMathsModule, false},
     {"Env", &createEnvModule, true},
     {"IO", &createIOModule, false},
-- 
2.43.0


From f6784f5685890152f9fbeb216e0fea700dd5fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:47 +0000
Subject: [PATCH 130/165] fix: ending a loop after a syntax error in it read
 the incomplete code as instructions

---
 src/vm/compiler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index ebd4794..ee1da35 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2431,8 +2431,9 @@ static void endLoop(Compiler *compiler) {
         emitByte(compiler, OP_POP); // Condition.
     }
 
+    // After an error the code may be incomplete, and is not run anyway.
     int i = compiler->loop->body;
-    while (i < compiler->function->chunk.count) {
+    while (!compiler->parser->hadError && i < compiler->function->chunk.count) {
         if (compiler->function->chunk.code[i] == OP_BREAK) {
             compiler->function->chunk.code[i] = OP_JUMP;
             patchJump(compiler, i + 1);
-- 
2.43.0


From 6ed94f7b451d8195931676524c68539d13d1b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:47 +0000
Subject: [PATCH 131/165] fix: names declared const by code that was rejected
 stayed constant in the REPL

---
 src/vm/compiler.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index ee1da35..35f0a29 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -3087,6 +3087,11 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
     initScanner(&scanner, source);
     parser.scanner = scanner;
 
+    // Rejected code does not declare any constants.
+    Table constants;
+    initTable(&constants);
+    tableAddAll(vm, &module->constants, &constants);
+
     Compiler compiler;
     initCompiler(&parser, &compiler, NULL, TYPE_TOP_LEVEL, ACCESS_PUBLIC);
 
@@ -3102,7 +3107,14 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
 
     // If there was a compile error, the code is not valid, so don't
     // create a function.
-    return parser.hadError ? NULL : function;
+    if (parser.hadError) {
+        freeTable(vm, &module->constants);
+        module->constants = constants;
+        return NULL;
+    }
+
+    freeTable(vm, &constants);
+    return function;
 }
 
 void grayCompilerRoots(DictuVM *vm) {
-- 
2.43.0


From 05803fd01fc73feb150e6b5e9fd1984dbacb7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:00 +0000
Subject: [PATCH 132/165] fix: a closure kept from code that ended with a
 runtime error read its captured variables from reused stack

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 926eb1d..9feb34a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -59,6 +59,8 @@ static void resetStack(DictuVM *vm) {
 
 #define INSTANCE_HAS_NO_ATTR_ERR RUNTIME_ERROR("'%s' instance has no attribute: '%s'.", instance->klass->name->chars, name->chars)
 
+static void closeUpvalues(DictuVM *vm, Value *last);
+
 void runtimeError(DictuVM *vm, const char *format, ...) {
     for (int i = vm->frameCount - 1; i >= 0; i--) {
         CallFrame *frame = &vm->frames[i];
@@ -85,6 +87,8 @@ void runtimeError(DictuVM *vm, const char *format, ...) {
         va_end(args);
     }
 
+    // Closures can outlive the stack in the REPL.
+    closeUpvalues(vm, vm->stack);
     resetStack(vm);
 }
 
-- 
2.43.0


From 1f898644814d3ebb206d096dc90890b46c7e8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 133/165] fix: the error for % applied to other types than
 numbers used the operator as part of a format

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9feb34a..82ad0c7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -914,7 +914,7 @@ static DictuInterpretResult run(DictuVM *vm) {
         char *secondVal = valueTypeToString(vm, peek(vm, 0), &secondValLength);                     \
                                                                                                     \
         STORE_FRAME;                                                                                \
-        runtimeError(vm, "Unsupported operand types for "#op": '%s', '%s'", firstVal, secondVal);   \
+        runtimeError(vm, "Unsupported operand types for %s: '%s', '%s'", #op, firstVal, secondVal); \
         FREE_ARRAY(vm, char, firstVal, firstValLength + 1);                                         \
         FREE_ARRAY(vm, char, secondVal, secondValLength + 1);                                       \
         return INTERPRET_RUNTIME_ERROR;                                                             \
-- 
2.43.0


From 94538cf0d4b453c1707978c7ab2eb5ae5a877044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 134/165] fix: write() stopped at a NUL, reported writes that
 had failed as done, and writeLine() on a binary file opened for reading was
 no error

---
 src/vm/datatypes/files.c | 53 ++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index d10fb68..4cf7d76 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -14,6 +14,33 @@ static bool isClosed(DictuVM *vm, ObjFile *file) {
     return false;
 }
 
+static bool isWritable(ObjFile *file) {
+    return file->openType->chars[0] != 'r' || strchr(file->openType->chars, '+') != NULL;
+}
+
+static Value writeChars(DictuVM *vm, ObjFile *file, ObjString *string, bool newLine) {
+    if (!isWritable(file)) {
+        runtimeError(vm, "File is not writable!");
+        return EMPTY_VAL;
+    }
+
+    size_t charsWrote = fwrite(string->chars, 1, string->length, file->file);
+    bool failed = charsWrote != (size_t) string->length;
+
+    if (!failed && newLine) {
+        failed = fputc('\n', file->file) == EOF;
+        charsWrote++;
+    }
+
+    if (fflush(file->file) != 0 || failed) {
+        clearerr(file->file);
+        runtimeError(vm, "Could not write to file \"%s\".", file->path->chars);
+        return EMPTY_VAL;
+    }
+
+    return NUMBER_VAL(charsWrote);
+}
+
 static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "write() takes 1 argument (%d given)", argCount);
@@ -32,21 +59,7 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
-        runtimeError(vm, "File is not writable!");
-        return EMPTY_VAL;
-    }
-
-    int charsWrote = 0;
-
-    if (strcmp(file->openType->chars, "wb") == 0) {
-        charsWrote = fwrite(string->chars, 1, string->length, file->file);
-    } else {
-        charsWrote = fprintf(file->file, "%s", string->chars);
-    }
-    fflush(file->file);
-
-    return NUMBER_VAL(charsWrote);
+    return writeChars(vm, file, string, false);
 }
 
 static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
@@ -67,15 +80,7 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    if (strcmp(file->openType->chars, "r") == 0) {
-        runtimeError(vm, "File is not writable!");
-        return EMPTY_VAL;
-    }
-
-    int charsWrote = fprintf(file->file, "%s\n", string->chars);
-    fflush(file->file);
-
-    return NUMBER_VAL(charsWrote);
+    return writeChars(vm, file, string, true);
 }
 
 static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 77e3185ddcbb268ae01a7f94b7fce17dcfa2c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 135/165] fix: reading a file that was opened for writing gave
 an empty string or nil instead of an error, and reading a directory ran out
 of memory

---
 src/vm/datatypes/files.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 4cf7d76..d17a18e 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,5 +1,6 @@
 #include <limits.h>
 #include <stdlib.h>
+#include <sys/stat.h>
 
 #include "files.h"
 #include "../memory.h"
@@ -83,6 +84,15 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     return writeChars(vm, file, string, true);
 }
 
+static bool isReadable(DictuVM *vm, ObjFile *file) {
+    if (file->openType->chars[0] != 'r' && strchr(file->openType->chars, '+') == NULL) {
+        runtimeError(vm, "File is not readable!");
+        return false;
+    }
+
+    return true;
+}
+
 static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 0) {
         runtimeError(vm, "read() takes no arguments (%d given)", argCount);
@@ -91,7 +101,14 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
-    if (isClosed(vm, file)) {
+    if (isClosed(vm, file) || !isReadable(vm, file)) {
+        return EMPTY_VAL;
+    }
+
+    // Opening a directory succeeds, reading it does not
+    struct stat info;
+    if (fstat(fileno(file->file), &info) == 0 && S_ISDIR(info.st_mode)) {
+        runtimeError(vm, "Could not read file \"%s\".", file->path->chars);
         return EMPTY_VAL;
     }
 
@@ -147,7 +164,7 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
-    if (isClosed(vm, file)) {
+    if (isClosed(vm, file) || !isReadable(vm, file)) {
         return EMPTY_VAL;
     }
 
-- 
2.43.0


From 58db325ac7d5be3e4a3cbc9040632ddd0fca8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 136/165] fix: readLine() split lines longer than 4095 bytes
 and lost the rest of a line that contains a NUL

---
 src/vm/datatypes/files.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index d17a18e..2823d35 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -146,7 +146,8 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int readLineBufferSize = 4096;
+    // The number of characters to read at most, 0 if there is no limit.
+    int limit = 0;
 
     if (argCount == 1) {
         if (!IS_NUMBER(args[1])) {
@@ -159,7 +160,7 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        readLineBufferSize = AS_NUMBER(args[1]) + 1;
+        limit = AS_NUMBER(args[1]);
     }
 
     ObjFile *file = AS_FILE(args[0]);
@@ -168,23 +169,33 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    char *line = malloc(readLineBufferSize);
+    char *line = NULL;
+    size_t capacity = 0;
+    int length = 0;
+    int c = 0;
 
-    if (line == NULL) {
-        runtimeError(vm, "Not enough memory to read \"%s\".", file->path->chars);
-        return EMPTY_VAL;
+    // The newline itself is not part of the result.
+    while ((limit == 0 || length < limit) && (c = fgetc(file->file)) != EOF && c != '\n') {
+        if ((size_t) length == capacity) {
+            capacity = capacity == 0 ? 128 : capacity * 2;
+            char *grown = length < INT_MAX ? realloc(line, capacity) : NULL;
+
+            if (grown == NULL) {
+                free(line);
+                runtimeError(vm, "Not enough memory to read \"%s\".", file->path->chars);
+                return EMPTY_VAL;
+            }
+
+            line = grown;
+        }
+
+        line[length++] = (char) c;
     }
 
     Value result = NIL_VAL;
 
-    if (fgets(line, readLineBufferSize, file->file) != NULL) {
-        int lineLength = strlen(line);
-        // Remove newline char
-        if (lineLength > 0 && line[lineLength - 1] == '\n') {
-            lineLength--;
-            line[lineLength] = '\0';
-        }
-        result = OBJ_VAL(copyString(vm, line, lineLength));
+    if (length > 0 || c == '\n') {
+        result = OBJ_VAL(copyString(vm, line == NULL ? "" : line, length));
     }
 
     free(line);
-- 
2.43.0


From 9b4debe82f350a5a13032e67136f4ae093b7a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 137/165] fix: a file whose with block ended with a runtime
 error was never closed

---
 src/vm/memory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/memory.c b/src/vm/memory.c
index dc8a3c6..26e35c7 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -299,6 +299,11 @@ void freeObject(DictuVM *vm, Obj *object) {
         }
 
         case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            // Still open if a runtime error left the with block
+            if (file->file != NULL) {
+                fclose(file->file);
+            }
             FREE(vm, ObjFile, object);
             break;
         }
-- 
2.43.0


From 6717919fe23fd084d2ff04bc55932b1116580a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 138/165] fix: IO.copyFile emptied a file copied onto itself
 and reported copies that failed as done

---
 src/optionals/io.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/optionals/io.c b/src/optionals/io.c
index 1602c7d..3514504 100644
--- a/src/optionals/io.c
+++ b/src/optionals/io.c
@@ -98,21 +98,38 @@ static Value copyFileIO(DictuVM *vm, int argCount, Value *args) {
     if ((in = open(src, O_RDONLY)) == -1) {
         return newResultError(vm, "failed to open src file");
     }
+
+    struct stat fileinfo = {0};
+    struct stat dstinfo = {0};
+    if (fstat(in, &fileinfo) == -1 || S_ISDIR(fileinfo.st_mode)) {
+        close(in);
+        return newResultError(vm, "src is not a file");
+    }
+    // Creating dst would empty src
+    if (stat(dst, &dstinfo) == 0 && dstinfo.st_dev == fileinfo.st_dev && dstinfo.st_ino == fileinfo.st_ino) {
+        close(in);
+        return newResultError(vm, "src and dst are the same file");
+    }
     if ((out = creat(dst, 0660)) == -1) {
         close(in);
         return newResultError(vm, "failed to create/open dst file");
     }
 
+    bool copied = true;
+
 #if defined(__APPLE__) || defined(__FreeBSD__)
-    fcopyfile(in, out, 0, COPYFILE_ALL);
+    copied = fcopyfile(in, out, 0, COPYFILE_ALL) == 0;
 #elif defined(__linux__)
     off_t bytes = 0;
-    struct stat fileinfo = {0};
-    fstat(in, &fileinfo);
-    sendfile(out, in, &bytes, fileinfo.st_size);
+    while (copied && bytes < fileinfo.st_size) {
+        // A single call may copy less than was asked for
+        copied = sendfile(out, in, &bytes, fileinfo.st_size - bytes) > 0;
+    }
 #endif
     close(in);
-    close(out);
+    if (close(out) == -1 || !copied) {
+        return newResultError(vm, "failed to copy the file");
+    }
 
     return newResultSuccess(vm, NIL_VAL);
 }
-- 
2.43.0


From 0906dee4e612a5972d92dbac07b43cdd6a2b3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:47 +0000
Subject: [PATCH 139/165] fix: S_ISDIR is not defined everywhere on Windows

---
 src/vm/datatypes/files.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index 2823d35..b33ea9f 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -2,6 +2,10 @@
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#if defined(_WIN32) && !defined(S_ISDIR)
+#define S_ISDIR(M) (((M) & _S_IFDIR) == _S_IFDIR)
+#endif
+
 #include "files.h"
 #include "../memory.h"
 
-- 
2.43.0


From 951cd30b081d830a82d61e3da11d0f906d1ab989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:14 +0000
Subject: [PATCH 140/165] fix: System.mkdirAll failed if a parent existed, cut
 paths at 255 bytes, read outside an empty path and split names at backslashes

---
 src/optionals/system.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 9a17a8b..2907ce9 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -1,10 +1,13 @@
 #include "system.h"
 
 #ifdef _WIN32
+#define IS_SEPARATOR(C) ((C) == '/' || (C) == '\\')
 #define rmdir(DIRNAME) _rmdir(DIRNAME)
 #define chdir(DIRNAME) _chdir(DIRNAME)
 #define chmod(FILENAME, MODE) _chmod(FILENAME, MODE)
 #define getcwd(BUFFER, MAXLEN) _getcwd(BUFFER, MAXLEN)
+#else
+#define IS_SEPARATOR(C) ((C) == '/')
 #endif
 
 #ifndef _WIN32
@@ -281,34 +284,34 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
         mode = AS_NUMBER(args[1]);
     }
 
-    char tmp[256];
-    char *p = NULL;
-    size_t len;
-
-    snprintf(tmp, sizeof(tmp), "%s", dir);
+    size_t len = strlen(dir);
+    char tmp[PATH_MAX];
 
-    len = strlen(tmp);
-    if (tmp[len - 1] == '/' || tmp[len - 1] == '\\') {
-        tmp[len - 1] = 0;
+    if (len >= sizeof(tmp)) {
+        errno = ENAMETOOLONG;
+        ERROR_RESULT;
     }
 
-    int retval;
+    memcpy(tmp, dir, len + 1);
 
-    for (p = tmp + 1; *p; p++) {
-        if (*p == '/' || *p == '\\') {
-            *p = 0;
+    while (len > 1 && IS_SEPARATOR(tmp[len - 1])) {
+        tmp[--len] = 0;
+    }
+
+    for (size_t i = 1; i < len; i++) {
+        if (IS_SEPARATOR(tmp[i])) {
+            tmp[i] = 0;
 
-            retval = MKDIR(tmp, mode);
-            if (retval < 0) {
+            // Only the last directory must not exist yet.
+            if (MKDIR(tmp, mode) < 0 && errno != EEXIST) {
                 ERROR_RESULT;
             }
 
-            *p = '/';
+            tmp[i] = '/';
         }
     }
 
-    retval = MKDIR(tmp, mode);
-    if (retval < 0) {
+    if (MKDIR(tmp, mode) < 0) {
         ERROR_RESULT;
     }
 
-- 
2.43.0


From 58198ae9b192932f20ed16af5d244ef119c306fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:14 +0000
Subject: [PATCH 141/165] fix: System.chmod took away all permissions if the
 mode was not a number

---
 src/optionals/system.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 2907ce9..0b6256c 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -484,7 +484,12 @@ static Value chmodNative(DictuVM *vm, int argCount, Value *args) {
     ObjString *file = AS_STRING(args[0]);
     ObjString *mode = AS_STRING(args[1]);
 
-    int i = strtol(mode->chars, 0, 8);
+    char *end;
+    long i = strtol(mode->chars, &end, 8);
+
+    if (end == mode->chars || *end != '\0' || i < 0 || i > 07777) {
+        return newResultError(vm, "invalid mode");
+    }
 
     if (chmod(file->chars, i) == -1) {
         ERROR_RESULT;
-- 
2.43.0


From 1401439299fc858a52c8e5dfcf2430911910c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:01 +0000
Subject: [PATCH 142/165] fix: the REPL ended when its working directory had
 been removed

---
 src/vm/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index 8d5b209..24c3719 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -104,8 +104,8 @@ ObjString *getDirectory(DictuVM *vm, char *source) {
 
     // Code which does not come from a file belongs to the current directory.
     if (!resolvePath(".", "", res)) {
-        runtimeError(vm, "Unable to resolve path '%s'", source);
-        exit(1);
+        // The working directory is gone
+        return copyString(vm, ".", 1);
     }
 
     return copyString(vm, res, strlen(res));
-- 
2.43.0


From 80a07f611eefb7d4dbcfd3e15b0356e6360efa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:14 +0000
Subject: [PATCH 143/165] fix: Process reported programs that could not be
 started as started, and failures with the text of an unrelated error

---
 src/optionals/process.c | 123 +++++++++++++++++++++++++++++++---------
 1 file changed, 95 insertions(+), 28 deletions(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index 58a61c3..e58e5a9 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -2,6 +2,9 @@
 #include <stdio.h>
 #ifdef _WIN32
 #include "windowsapi.h"
+#else
+#include <fcntl.h>
+#include <unistd.h>
 #endif
 
 #include "process.h"
@@ -140,6 +143,76 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
     return newResultSuccess(vm, OBJ_VAL(takeString(vm, output, total)));
 }
 #else
+// Returns the process ID, or -1 with errno set if the program cannot be started.
+static pid_t startProcess(char** arguments, int output) {
+    int report[2];
+    if (pipe(report) != 0) {
+        return -1;
+    }
+    fcntl(report[0], F_SETFD, FD_CLOEXEC);
+    fcntl(report[1], F_SETFD, FD_CLOEXEC);
+
+    // Buffered output comes before the child's, and only once
+    fflush(NULL);
+    pid_t pid = fork();
+    if (pid == 0) {
+        if (output != -1) {
+            dup2(output, 1);
+            dup2(output, 2);
+        }
+
+        execvp(arguments[0], arguments);
+
+        int error = errno;
+        if (write(report[1], &error, sizeof(error)) < 0) {
+            _exit(127);
+        }
+        _exit(error);
+    }
+
+    int error = errno;
+    close(report[1]);
+
+    // The pipe is closed without a report once the program has been started
+    if (pid != -1) {
+        ssize_t numRead;
+        do {
+            numRead = read(report[0], &error, sizeof(error));
+        } while (numRead == -1 && errno == EINTR);
+
+        if (numRead == sizeof(error)) {
+            waitpid(pid, NULL, 0);
+            pid = -1;
+        }
+    }
+
+    close(report[0]);
+    errno = error;
+
+    return pid;
+}
+
+static Value waitForProcess(DictuVM* vm, pid_t pid) {
+    char message[64];
+    int status = 0;
+
+    if (waitpid(pid, &status, 0) == -1) {
+        ERROR_RESULT;
+    }
+
+    if (WIFSIGNALED(status)) {
+        snprintf(message, sizeof(message), "Process was terminated by signal %d", WTERMSIG(status));
+        return newResultError(vm, message);
+    }
+
+    if (WEXITSTATUS(status) != 0) {
+        snprintf(message, sizeof(message), "Process exited with status %d", WEXITSTATUS(status));
+        return newResultError(vm, message);
+    }
+
+    return newResultSuccess(vm, NIL_VAL);
+}
+
 static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     char** arguments = ALLOCATE(vm, char*, argList->values.count + 1);
     for (int i = 0; i < argList->values.count; ++i) {
@@ -152,23 +225,18 @@ static Value execute(DictuVM* vm, ObjList* argList, bool wait) {
     }
 
     arguments[argList->values.count] = NULL;
-    // Buffered output comes before the child's, and only once
-    fflush(NULL);
-    pid_t pid = fork();
-    if (pid == 0) {
-        execvp(arguments[0], arguments);
-        _exit(errno);
-    }
+    pid_t pid = startProcess(arguments, -1);
+    int error = errno;
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
 
-    if (wait) {
-        int status = 0;
-        waitpid(pid, &status, 0);
+    if (pid == -1) {
+        errno = error;
+        ERROR_RESULT;
+    }
 
-        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
-            ERROR_RESULT;
-        }
+    if (wait) {
+        return waitForProcess(vm, pid);
     }
 
     return newResultSuccess(vm, NIL_VAL);
@@ -189,25 +257,25 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     int fd[2];
     if (pipe(fd) != 0) {
+        FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
         ERROR_RESULT;
     }
-    // Buffered output comes before the child's, and only once
-    fflush(NULL);
-    pid_t pid = fork();
-    if (pid == 0) {
-        close(fd[0]);
-        dup2(fd[1], 1);
-        dup2(fd[1], 2);
-        close(fd[1]);
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
 
-        execvp(arguments[0], arguments);
-        _exit(errno);
-    }
+    pid_t pid = startProcess(arguments, fd[1]);
+    int error = errno;
 
     FREE_ARRAY(vm, char*, arguments, argList->values.count + 1);
 
     close(fd[1]);
 
+    if (pid == -1) {
+        close(fd[0]);
+        errno = error;
+        ERROR_RESULT;
+    }
+
     int size = 1024;
     char* output = ALLOCATE(vm, char, size);
     char buffer[1024];
@@ -227,12 +295,11 @@ static Value executeReturnOutput(DictuVM* vm, ObjList* argList) {
 
     close(fd[0]);
 
-    int status = 0;
-    waitpid(pid, &status, 0);
+    Value result = waitForProcess(vm, pid);
 
-    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
+    if (AS_RESULT(result)->status == ERR) {
         FREE_ARRAY(vm, char, output, size);
-        ERROR_RESULT;
+        return result;
     }
 
     output = SHRINK_ARRAY(vm, output, char, size, total + 1);
-- 
2.43.0


From e17030d9cf97461b2cd5a0e31daf0e1719460532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:02 +0000
Subject: [PATCH 144/165] fix: the signal constants of Linux were not defined

---
 src/optionals/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/process.c b/src/optionals/process.c
index e58e5a9..78dd396 100644
--- a/src/optionals/process.c
+++ b/src/optionals/process.c
@@ -439,7 +439,7 @@ Value createProcessModule(DictuVM* vm) {
     defineNativeProperty(vm, &module->values, "SIGSEGV", NUMBER_VAL(11));
     defineNativeProperty(vm, &module->values, "SIGTERM", NUMBER_VAL(15));
 
-#if defined(__Linux__)
+#if defined(__linux__)
     defineNativeProperty(vm, &module->values, "SIGHUP", NUMBER_VAL(1));
     defineNativeProperty(vm, &module->values, "SIGQUIT", NUMBER_VAL(3));
     defineNativeProperty(vm, &module->values, "SIGABRT", NUMBER_VAL(6));
-- 
2.43.0


From 1a45289a130f21acb977b43a1909a98cb41e5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 145/165] fix: Argparse keeps zero, empty string and empty list
 values, accepts empty values, counts every required flag once and prints
 nothing while parsing

---
 src/optionals/argparse/argparse-source.h | 35 ++++++++----------------
 src/optionals/argparse/argparse.du       | 35 ++++++++----------------
 2 files changed, 22 insertions(+), 48 deletions(-)

diff --git a/src/optionals/argparse/argparse-source.h b/src/optionals/argparse/argparse-source.h
index 3fab8cc..d397de3 100644
--- a/src/optionals/argparse/argparse-source.h
+++ b/src/optionals/argparse/argparse-source.h
@@ -81,40 +81,30 @@
 "    }\n" \
 "\n" \
 "    private hasRequired() {\n" \
-"        var found = 0;\n" \
-"        for (var i = 0; i < System.argv.len(); i+=1) {\n" \
-"            for (var j = 0; j < this.required.len(); j+=1) {\n" \
-"                if (System.argv[i] == this.required[j]) {\n" \
-"                    found += 1;\n" \
-"                }\n" \
+"        for (var i = 0; i < this.required.len(); i+=1) {\n" \
+"            if (not System.argv.contains(this.required[i])) {\n" \
+"                return false;\n" \
 "            }\n" \
 "        }\n" \
 "\n" \
-"        if (found == this.required.len()) {\n" \
-"            return true;\n" \
-"        }\n" \
-"\n" \
-"        return false;\n" \
+"        return true;\n" \
 "    }\n" \
 "\n" \
 "    private fillEmpty() {\n" \
 "        for (var i = 0; i < this.preArgs.len(); i += 1) {\n" \
 "            const arg = this.preArgs[i];\n" \
 "\n" \
-"            if (arg.get('metavar') and not this.args.getAttribute(arg['metavar'])) {\n" \
+"            if (arg.get('metavar')) {\n" \
 "                this.args.setAttribute(arg['metavar'], nil);\n" \
-"\n" \
-"                continue;\n" \
-"            }\n" \
-"\n" \
-"            const flag = arg['flag'].replace('-', '');\n" \
-"            if (not this.args.getAttribute(flag)) {\n" \
-"                this.args.setAttribute(flag, nil);\n" \
+"            } else {\n" \
+"                this.args.setAttribute(arg['flag'].replace('-', ''), nil);\n" \
 "            }\n" \
 "        }\n" \
 "    }\n" \
 "\n" \
 "    parse() {\n" \
+"        this.fillEmpty();\n" \
+"\n" \
 "        for (var i = 0; i < System.argv.len(); i+=1) {\n" \
 "            for (var j = 0; j < this.preArgs.len(); j+=1) {\n" \
 "                if (System.argv[i] == this.preArgs[j]['flag']) {\n" \
@@ -126,7 +116,7 @@
 "                        }\n" \
 "                        \n" \
 "                    } else if (this.preArgs[j]['type'] == 'list') {\n" \
-"                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {\n" \
+"                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {\n" \
 "                            return Error('{} requires an argument'.format(System.argv[i]));\n" \
 "                        }\n" \
 "\n" \
@@ -146,13 +136,12 @@
 "                        }\n" \
 "\n" \
 "                        if (this.preArgs[j].exists('metavar') and this.preArgs[j]['metavar'] != '') {\n" \
-"                            print(this.preArgs[j]['metavar']);\n" \
 "                            this.args.setAttribute(this.preArgs[j]['metavar'], res.unwrap());\n" \
 "                        } else {\n" \
 "                            this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());\n" \
 "                        }\n" \
 "                    } else {\n" \
-"                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {\n" \
+"                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {\n" \
 "                            return Error('{} requires an argument'.format(System.argv[i]));\n" \
 "                        }\n" \
 "\n" \
@@ -170,8 +159,6 @@
 "            return Error('1 or more required flags missing');\n" \
 "        }\n" \
 "\n" \
-"        this.fillEmpty();\n" \
-"\n" \
 "        return Success(this.args);\n" \
 "    }\n" \
 "}\n" \
diff --git a/src/optionals/argparse/argparse.du b/src/optionals/argparse/argparse.du
index e9fbc74..ee93d03 100644
--- a/src/optionals/argparse/argparse.du
+++ b/src/optionals/argparse/argparse.du
@@ -81,40 +81,30 @@ class Parser {
     }
 
     private hasRequired() {
-        var found = 0;
-        for (var i = 0; i < System.argv.len(); i+=1) {
-            for (var j = 0; j < this.required.len(); j+=1) {
-                if (System.argv[i] == this.required[j]) {
-                    found += 1;
-                }
+        for (var i = 0; i < this.required.len(); i+=1) {
+            if (not System.argv.contains(this.required[i])) {
+                return false;
             }
         }
 
-        if (found == this.required.len()) {
-            return true;
-        }
-
-        return false;
+        return true;
     }
 
     private fillEmpty() {
         for (var i = 0; i < this.preArgs.len(); i += 1) {
             const arg = this.preArgs[i];
 
-            if (arg.get('metavar') and not this.args.getAttribute(arg['metavar'])) {
+            if (arg.get('metavar')) {
                 this.args.setAttribute(arg['metavar'], nil);
-
-                continue;
-            }
-
-            const flag = arg['flag'].replace('-', '');
-            if (not this.args.getAttribute(flag)) {
-                this.args.setAttribute(flag, nil);
+            } else {
+                this.args.setAttribute(arg['flag'].replace('-', ''), nil);
             }
         }
     }
 
     parse() {
+        this.fillEmpty();
+
         for (var i = 0; i < System.argv.len(); i+=1) {
             for (var j = 0; j < this.preArgs.len(); j+=1) {
                 if (System.argv[i] == this.preArgs[j]['flag']) {
@@ -126,7 +116,7 @@ class Parser {
                         }
                         
                     } else if (this.preArgs[j]['type'] == 'list') {
-                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {
+                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {
                             return Error('{} requires an argument'.format(System.argv[i]));
                         }
 
@@ -146,13 +136,12 @@ class Parser {
                         }
 
                         if (this.preArgs[j].exists('metavar') and this.preArgs[j]['metavar'] != '') {
-                            print(this.preArgs[j]['metavar']);
                             this.args.setAttribute(this.preArgs[j]['metavar'], res.unwrap());
                         } else {
                             this.args.setAttribute(this.preArgs[j]['flag'].replace('-', ''), res.unwrap());
                         }
                     } else {
-                        if (i == (System.argv.len() - 1) or System.argv[i+1][0] == '-') {
+                        if (i == (System.argv.len() - 1) or System.argv[i+1].startsWith('-')) {
                             return Error('{} requires an argument'.format(System.argv[i]));
                         }
 
@@ -170,8 +159,6 @@ class Parser {
             return Error('1 or more required flags missing');
         }
 
-        this.fillEmpty();
-
         return Success(this.args);
     }
 }
-- 
2.43.0


From cf28b0741e1bfe7f5561b87abf8479da549c11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 146/165] fix: Sqlite counts the placeholders SQLite sees, not
 the question marks in the text

---
 src/optionals/sqlite.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 265793b..d433286 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -14,17 +14,6 @@ typedef struct {
 
 ObjAbstract *newSqlite(DictuVM *vm);
 
-static int countParameters(char *query) {
-    int length = strlen(query);
-    int count = 0;
-
-    for (int i = 0; i < length; ++i) {
-        if (query[i] == '?') count++;
-    }
-
-    return count;
-}
-
 void bindValue(sqlite3_stmt *stmt, int index, Value value) {
     if (IS_NUMBER(value)) {
         sqlite3_bind_double(stmt, index, AS_NUMBER(value));
@@ -61,7 +50,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     char *sql = AS_CSTRING(args[1]);
     ObjList *list = NULL;
-    int parameterCount = countParameters(sql);
     int argumentCount = 0;
 
     if (argCount == 2) {
@@ -74,11 +62,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         argumentCount = list->values.count;
     }
 
-    if (parameterCount != argumentCount) {
-        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
-        return EMPTY_VAL;
-    }
-
     Result result;
 
     int err = sqlite3_prepare_v2(db->db, sql, -1, &result.stmt, NULL);
@@ -87,6 +70,14 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, error);
     }
 
+    int parameterCount = sqlite3_bind_parameter_count(result.stmt);
+
+    if (parameterCount != argumentCount) {
+        sqlite3_finalize(result.stmt);
+        runtimeError(vm, "execute() has %d parameters but %d were given", parameterCount, argumentCount);
+        return EMPTY_VAL;
+    }
+
     if (parameterCount != 0 && list != NULL) {
         for (int i = 0; i < parameterCount; ++i) {
             bindValue(result.stmt, i + 1, list->values.values[i]);
-- 
2.43.0


From 585fa7b74d47e987cd5f71c7ac1ca8f9b5432763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 147/165] fix: Sqlite returns a list for every statement that
 yields rows, and only for those

---
 src/optionals/sqlite.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index d433286..bcb9eb7 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -86,17 +86,13 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     ObjList *finalList = newList(vm);
     push(vm, OBJ_VAL(finalList));
-    bool returnValue = false;
+    // A statement with columns is a query, even if it yields no rows
+    bool returnValue = sqlite3_column_count(result.stmt) > 0;
 
     for (;;) {
         err = sqlite3_step(result.stmt);
         if (err != SQLITE_ROW) {
             if (err == SQLITE_DONE) {
-                if (sql[0] == 'S' || sql[0] == 's') {
-                    // If a select statement returns no results SQLITE_ROW is not used.
-                    returnValue = true;
-                }
-
                 break;
             }
 
@@ -106,8 +102,6 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
             return newResultError(vm, error);
         }
 
-        returnValue = true;
-
         ObjList *rowList = newList(vm);
         push(vm, OBJ_VAL(rowList));
 
-- 
2.43.0


From c4be666931863c934cf1f92ed953ad63e59fc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 148/165] fix: Sqlite returns every column of a row in full:
 blobs were left out, text ended at a NUL

---
 src/optionals/sqlite.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index bcb9eb7..9037bad 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -120,7 +120,16 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
                 case SQLITE_TEXT: {
                     char *s = (char *)sqlite3_column_text(result.stmt, i);
-                    ObjString *string = copyString(vm, s, strlen(s));
+                    ObjString *string = copyString(vm, s, sqlite3_column_bytes(result.stmt, i));
+                    push(vm, OBJ_VAL(string));
+                    writeValueArray(vm, &rowList->values, OBJ_VAL(string));
+                    pop(vm);
+                    break;
+                }
+
+                case SQLITE_BLOB: {
+                    char *s = (char *)sqlite3_column_blob(result.stmt, i);
+                    ObjString *string = copyString(vm, s == NULL ? "" : s, sqlite3_column_bytes(result.stmt, i));
                     push(vm, OBJ_VAL(string));
                     writeValueArray(vm, &rowList->values, OBJ_VAL(string));
                     pop(vm);
-- 
2.43.0


From 53f2807d8c2b1814a61e10c1c78fc1f5f47bfe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 149/165] fix: Sqlite binds booleans as 1 and 0 and refuses
 values it cannot store instead of storing NULL

---
 src/optionals/sqlite.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/optionals/sqlite.c b/src/optionals/sqlite.c
index 9037bad..6fd8035 100644
--- a/src/optionals/sqlite.c
+++ b/src/optionals/sqlite.c
@@ -20,6 +20,11 @@ void bindValue(sqlite3_stmt *stmt, int index, Value value) {
         return;
     }
 
+    if (IS_BOOL(value)) {
+        sqlite3_bind_int(stmt, index, AS_BOOL(value));
+        return;
+    }
+
     if (IS_NIL(value)) {
         sqlite3_bind_null(stmt, index);
         return;
@@ -80,6 +85,13 @@ static Value execute(DictuVM *vm, int argCount, Value *args) {
 
     if (parameterCount != 0 && list != NULL) {
         for (int i = 0; i < parameterCount; ++i) {
+            if (!IS_NUMBER(list->values.values[i]) && !IS_BOOL(list->values.values[i]) &&
+                !IS_NIL(list->values.values[i]) && !IS_STRING(list->values.values[i])) {
+                sqlite3_finalize(result.stmt);
+                runtimeError(vm, "execute() arguments must be strings, numbers, booleans or nil");
+                return EMPTY_VAL;
+            }
+
             bindValue(result.stmt, i + 1, list->values.values[i]);
         }
     }
-- 
2.43.0


From b917c5c3942c99bf87bf32aa15600315d52431b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 150/165] fix: Datetime.strftime reports a time no calendar
 date exists for instead of formatting indeterminate fields

---
 src/optionals/datetime.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 3919003..0465e89 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -68,7 +68,14 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        t = AS_NUMBER(args[1]);
+        // 2 ^ 56 seconds are beyond the last year a struct tm can hold
+        double seconds = AS_NUMBER(args[1]);
+        if (!(seconds > -72057594037927936.0 && seconds < 72057594037927936.0)) {
+            runtimeError(vm, "strftime() optional argument is out of range");
+            return EMPTY_VAL;
+        }
+
+        t = seconds;
     } else {
         time(&t);
     }
@@ -82,6 +89,15 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
     char *fmt = format->chars;
 
     struct tm tictoc;
+#ifndef _WIN32
+    if (gmtime_r(&t, &tictoc) == NULL) {
+        runtimeError(vm, "strftime() optional argument is out of range");
+        return EMPTY_VAL;
+    }
+#else
+    gmtime_r(&t, &tictoc);
+#endif
+
     int len = (format->length > 128 ? format->length * 4 : 128);
 
     char *point = ALLOCATE(vm, char, len);
@@ -90,8 +106,6 @@ static Value strftimeNative(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    gmtime_r(&t, &tictoc);
-
     /**
      * strtime returns 0 when it fails to write - this would be due to the buffer
      * not being large enough. In that instance we double the buffer length until
-- 
2.43.0


From 44fc967750528251d325bd922cca8eeb953f6440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:53 +0000
Subject: [PATCH 151/165] fix: Datetime.strptime reads the text as UTC, which
 strftime writes, whatever the local time zone

---
 src/optionals/datetime.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/datetime.c b/src/optionals/datetime.c
index 0465e89..06d5203 100644
--- a/src/optionals/datetime.c
+++ b/src/optionals/datetime.c
@@ -164,7 +164,13 @@ static Value strptimeNative(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
 
-    return NUMBER_VAL((double) mktime(&tictoc));
+    // %s is the only directive that decides whether daylight saving is in effect: it leaves local time
+    if (tictoc.tm_isdst != -1) {
+        return NUMBER_VAL((double) mktime(&tictoc));
+    }
+
+    // strftime() formats in UTC, so the text is read as UTC too
+    return NUMBER_VAL((double) timegm(&tictoc));
 }
 #endif
 
-- 
2.43.0


From 91688d444f819588a7a44838baeb47a5fdc49e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 152/165] fix: HTTP functions called with too few arguments
 report it instead of reading past their arguments

---
 src/optionals/http/http.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index fe7963e..e4d6811 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -411,7 +411,7 @@ static ObjInstance *endRequest(DictuVM *vm, CURL *curl, Response response, bool
 }
 
 static Value get(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "get() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -738,7 +738,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value head(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "head() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -829,7 +829,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value options(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -1325,7 +1325,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
-    if (argCount < 0 || argCount > 3) {
+    if (argCount < 1 || argCount > 3) {
         runtimeError(vm, "options() takes between 1 and 3 arguments (%d given).", argCount);
         return EMPTY_VAL;
     }
@@ -1335,7 +1335,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    if (argCount == 4) {
+    if (argCount == 3) {
         if (!IS_NUMBER(args[3])) {
             runtimeError(vm, "Timeout passed to options() must be a number.");
             return EMPTY_VAL;
@@ -1345,7 +1345,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         argCount--;
     }
 
-    if (argCount == 3) {
+    if (argCount == 2) {
         if (!IS_LIST(args[2])) {
             runtimeError(vm, "Headers passed to options() must be a list.");
             return EMPTY_VAL;
@@ -1572,7 +1572,7 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
 }
 
 static Value newClient(DictuVM *vm, int argCount, Value *args) {
-    if (argCount > 1) {
+    if (argCount != 1) {
         runtimeError(vm, "newClient() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
-- 
2.43.0


From bff84926415d89d29fc0cfbdaf8650756f82fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 153/165] fix: HTTP request headers are freed after the request

---
 src/optionals/http/http.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index e4d6811..3325efe 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -337,7 +337,7 @@ static char *dictToPostArgs(ObjDict *dict) {
     return ret;
 }
 
-static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl, ObjList *headers) {
+static bool setRequestHeaders(DictuVM *vm, struct curl_slist **list, CURL *curl, ObjList *headers) {
     if (headers->values.count == 0) {
         return true;
     }
@@ -348,10 +348,10 @@ static bool setRequestHeaders(DictuVM *vm, struct curl_slist *list, CURL *curl,
             return false;
         }
 
-        list = curl_slist_append(list, AS_CSTRING(headers->values.values[i]));
+        *list = curl_slist_append(*list, AS_CSTRING(headers->values.values[i]));
     }
 
-    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, list);
+    curl_easy_setopt(curl, CURLOPT_HTTPHEADER, *list);
 
     return true;
 }
@@ -457,8 +457,10 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -564,8 +566,10 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -681,8 +685,10 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -784,8 +790,10 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -875,8 +883,10 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, curl, headers)) {
+            if (!setRequestHeaders(vm, &list, curl, headers)) {
                 curl_slist_free_all(list);
+                curl_easy_cleanup(curl);
+                curl_global_cleanup();
                 return EMPTY_VAL;
             }
         }
@@ -1369,7 +1379,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         struct curl_slist *list = NULL;
 
         if (headers) {
-            if (!setRequestHeaders(vm, list, httpClient->curl, headers)) {
+            if (!setRequestHeaders(vm, &list, httpClient->curl, headers)) {
                 curl_slist_free_all(list);
                 return EMPTY_VAL;
             }
-- 
2.43.0


From f6871eaf5ae49b8c1b90885ee38f164615f94da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 154/165] fix: HTTP post arguments no longer overflow their
 buffer

---
 src/optionals/http/http.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 3325efe..7468397 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -305,8 +305,9 @@ static char *dictToPostArgs(ObjDict *dict) {
         int keyLen = strlen(key);
         int valLen = strlen(value);
 
-        if (currentLen + keyLen + valLen > len) {
-            len = len * 2 + keyLen + valLen;
+        // + 3 for the '=', the '&' and the terminator
+        if (currentLen + keyLen + valLen + 3 > len) {
+            len = len * 2 + keyLen + valLen + 3;
             ret = realloc(ret, len);
 
             if (ret == NULL) {
-- 
2.43.0


From 6ea662964007553113852638c133ea66c012eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 155/165] fix: HTTP post and put send string bodies in full:
 they ended at a NUL

---
 src/optionals/http/http.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 7468397..33df0f5 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -563,6 +563,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *postValue = "";
+        long postLength = 0;
 
         struct curl_slist *list = NULL;
 
@@ -577,14 +578,17 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
 
         if (postValuesDict != NULL) {
             postValue = dictToPostArgs(postValuesDict);
+            postLength = strlen(postValue);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, postValue);
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response);
         curl_easy_setopt(curl, CURLOPT_HEADERFUNCTION, writeHeaders);
@@ -682,6 +686,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[0]);
         char *putValue = "";
+        long putLength = 0;
 
         struct curl_slist *list = NULL;
 
@@ -696,14 +701,17 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
 
         if (putValuesDict != NULL) {
             putValue = dictToPostArgs(putValuesDict);
+            putLength = strlen(putValue);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(curl, CURLOPT_URL, url);
         curl_easy_setopt(curl, CURLOPT_TIMEOUT, timeout);
         curl_easy_setopt(curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(curl, CURLOPT_POSTFIELDS, putValue);
+        curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response);
@@ -1185,16 +1193,20 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *postValue = "";
+        long postLength = 0;
 
         if (postValuesDict != NULL) {
             postValue = dictToPostArgs(postValuesDict);
+            postLength = strlen(postValue);
         } else if (postValueString != NULL) {
             postValue = postValueString->chars;
+            postLength = postValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, postValue);
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, postLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
@@ -1255,16 +1267,20 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
         char *putValue = "";
+        long putLength = 0;
 
         if (putValuesDict != NULL) {
             putValue = dictToPostArgs(putValuesDict);
+            putLength = strlen(putValue);
         } else if (putValueString != NULL) {
             putValue = putValueString->chars;
+            putLength = putValueString->length;
         }
 
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, putValue);
+        curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDSIZE, putLength);
         curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, "PUT");
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEDATA, &response);
-- 
2.43.0


From 8a5c7db9d8f03c8769e3b5a3647b5b47ec033c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:07 +0000
Subject: [PATCH 156/165] fix: An HTTP client sends each request as described,
 whatever it has sent before, and owns its headers and handle

---
 src/optionals/http/http.c | 87 +++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 33df0f5..5aea3cd 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -942,16 +942,17 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
 
 typedef struct {
     CURL *curl;
+    struct curl_slist *headers;
+    long timeout;
 } HttpClient;
 
 #define AS_HTTP_CLIENT(v) ((HttpClient*)AS_ABSTRACT(v)->data)
 
-struct curl_slist *headerChunk = NULL;
-
 void freeHttpClient(DictuVM *vm, ObjAbstract *abstract) {
     HttpClient *httpClient = (HttpClient*)abstract->data;
-    
+
     curl_easy_cleanup(httpClient->curl);
+    curl_slist_free_all(httpClient->headers);
     curl_global_cleanup();
 
     FREE(vm, HttpClient, abstract->data);
@@ -965,6 +966,34 @@ char *httpClientToString(ObjAbstract *abstract) {
     return httpClientString;
 }
 
+// The handle outlives its requests: undo what a previous one has set
+static void resetRequest(HttpClient *httpClient) {
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPGET, 1L);
+    curl_easy_setopt(httpClient->curl, CURLOPT_CUSTOMREQUEST, NULL);
+    curl_easy_setopt(httpClient->curl, CURLOPT_REQUEST_TARGET, NULL);
+}
+
+static bool setClientHeaders(DictuVM *vm, HttpClient *httpClient, ObjList *headers) {
+    for (int i = 0; i < headers->values.count; i++) {
+        if (!IS_STRING(headers->values.values[i])) {
+            runtimeError(vm, "Headers list must only contain strings");
+            return false;
+        }
+    }
+
+    struct curl_slist *list = NULL;
+
+    for (int i = 0; i < headers->values.count; i++) {
+        list = curl_slist_append(list, AS_CSTRING(headers->values.values[i]));
+    }
+
+    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, list);
+    curl_slist_free_all(httpClient->headers);
+    httpClient->headers = list;
+
+    return true;
+}
+
 static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "setTimeout() takes 1 argument (%d given).", argCount);
@@ -978,7 +1007,8 @@ static Value httpClientSetTimeout(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(args[1]));
+    httpClient->timeout = (long)AS_NUMBER(args[1]);
+    curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
 
     return NIL_VAL;
 }
@@ -1048,15 +1078,9 @@ static Value httpClientSetHeaders(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    ObjList *headers = AS_LIST(args[1]);
-
-    headerChunk = NULL;
-
-    for (int h = 0; h < headers->values.count; h++) {
-        headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+    if (!setClientHeaders(vm, httpClient, AS_LIST(args[1]))) {
+        return EMPTY_VAL;
     }
-    
-    curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
 
     return NIL_VAL;
 }
@@ -1135,6 +1159,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_WRITEFUNCTION, writeResponse);
@@ -1203,6 +1228,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
             postLength = postValueString->length;
         }
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, postValue);
@@ -1277,6 +1303,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
             putLength = putValueString->length;
         }
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_POSTFIELDS, putValue);
@@ -1328,6 +1355,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         createResponse(vm, &response);
         char *url = AS_CSTRING(args[1]);
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
@@ -1357,10 +1385,10 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    long timeout = DEFAULT_REQUEST_TIMEOUT;
     ObjList *headers = NULL;
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
+    long timeout = httpClient->timeout;
 
     if (argCount == 3) {
         if (!IS_NUMBER(args[3])) {
@@ -1402,6 +1430,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
             }
         }
 
+        resetRequest(httpClient);
         curl_easy_setopt(httpClient->curl, CURLOPT_URL, url);
         curl_easy_setopt(httpClient->curl, CURLOPT_NOBODY, 1L);
         curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, timeout);
@@ -1410,32 +1439,28 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
         curl_easy_setopt(httpClient->curl, CURLOPT_ACCEPT_ENCODING, "gzip");
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
         curl_easy_setopt(httpClient->curl, CURLOPT_HEADERDATA, &response);
-        curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
 
         /* Perform the request, res will get the return code */
         curlResponse = curl_easy_perform(httpClient->curl);
 
+        curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
+
         if (headers) {
+            curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, httpClient->headers);
             curl_slist_free_all(list);
         }
 
         /* Check for errors */
         if (curlResponse != CURLE_OK) {
-            /* always cleanup */
-            curl_easy_cleanup(httpClient->curl);
-            curl_global_cleanup();
             pop(vm);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
         }
 
-        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, true)));
+        return newResultSuccess(vm, OBJ_VAL(endRequest(vm, httpClient->curl, response, false)));
     }
 
-    /* always cleanup */
-    curl_easy_cleanup(httpClient->curl);
-    curl_global_cleanup();
     pop(vm);
 
     char *errorString = (char *) curl_easy_strerror(CURLE_FAILED_INIT);
@@ -1447,8 +1472,13 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
     push(vm, OBJ_VAL(abstract));
 
     HttpClient *httpClient = ALLOCATE(vm, HttpClient, 1);
+    // Balances the cleanup in freeHttpClient()
+    curl_global_init(CURL_GLOBAL_DEFAULT);
     httpClient->curl = curl_easy_init();
-    
+    httpClient->headers = NULL;
+    httpClient->timeout = 0;
+    abstract->data = httpClient;
+
     curl_easy_setopt(httpClient->curl, CURLOPT_HEADERFUNCTION, writeHeaders);
     curl_easy_setopt(httpClient->curl, CURLOPT_FOLLOWLOCATION, 1L);
 
@@ -1478,7 +1508,8 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, (long)AS_NUMBER(entry->value));
+                httpClient->timeout = (long)AS_NUMBER(entry->value);
+                curl_easy_setopt(httpClient->curl, CURLOPT_TIMEOUT, httpClient->timeout);
             } else if (strstr(key, "headers")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1489,13 +1520,9 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
                     return EMPTY_VAL;
                 }
 
-                ObjList *headers = AS_LIST(entry->value);
-
-                for (int h = 0; h < headers->values.count; h++) {
-                    headerChunk = curl_slist_append(headerChunk, AS_CSTRING(headers->values.values[h]));
+                if (!setClientHeaders(vm, httpClient, AS_LIST(entry->value))) {
+                    return EMPTY_VAL;
                 }
-                
-                curl_easy_setopt(httpClient->curl, CURLOPT_HTTPHEADER, headerChunk);
             } else if (strstr(key, "insecure")) {
                 if (IS_EMPTY(entry->value)) {
                     continue;
@@ -1576,8 +1603,6 @@ Value newHttpClient(DictuVM *vm, ObjDict *opts) {
         }
     }
 
-    abstract->data = httpClient;
-
     /**
      * Setup HTTP object methods
      */
-- 
2.43.0


From b7432aee38becaab786f2fa69a989e15358612db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:07 +0000
Subject: [PATCH 157/165] fix: HTTP setCertFile and setKeyPass no longer
 replace the key file

---
 src/optionals/http/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index 5aea3cd..a1d0a74 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -1116,7 +1116,7 @@ static Value httpClientSetCertFile(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_SSLCERT, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
@@ -1134,7 +1134,7 @@ static Value httpClientSetKeyPass(DictuVM *vm, int argCount, Value *args) {
 
     HttpClient *httpClient = AS_HTTP_CLIENT(args[0]);
 
-    curl_easy_setopt(httpClient->curl, CURLOPT_SSLKEY, AS_CSTRING(args[1]));
+    curl_easy_setopt(httpClient->curl, CURLOPT_KEYPASSWD, AS_CSTRING(args[1]));
 
     return NIL_VAL;
 }
-- 
2.43.0


From 37e652df79f20dcefbcbbb5f3e34aeed420d6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:31 +0000
Subject: [PATCH 158/165] fix: HTTP requests that fail after a part of the
 response free that part

---
 src/optionals/http/http.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index a1d0a74..ef1322c 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -246,6 +246,16 @@ static void createResponse(DictuVM *vm, Response *response) {
     response->firstIteration = true;
 }
 
+// Drop what a request that failed has received
+static void discardResponse(DictuVM *vm, Response *response) {
+    if (response->res != NULL) {
+        FREE_ARRAY(vm, char, response->res, response->len + 1);
+    }
+
+    // Pop headers from createResponse
+    pop(vm);
+}
+
 static size_t writeResponse(char *ptr, size_t size, size_t nmemb, void *data) {
     Response *response = (Response *) data;
     size_t new_len = response->len + size * nmemb;
@@ -487,7 +497,7 @@ static Value get(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -610,7 +620,7 @@ static Value post(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -734,7 +744,7 @@ static Value put(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -827,7 +837,7 @@ static Value head(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -922,7 +932,7 @@ static Value options(DictuVM *vm, int argCount, Value *args) {
             /* always cleanup */
             curl_easy_cleanup(curl);
             curl_global_cleanup();
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1169,7 +1179,7 @@ static Value httpClientGet(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1244,7 +1254,7 @@ static Value httpClientPost(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1320,7 +1330,7 @@ static Value httpClientPut(DictuVM *vm, int argCount, Value *args) {
         }
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1364,7 +1374,7 @@ static Value httpClientHead(DictuVM *vm, int argCount, Value *args) {
         curlResponse = curl_easy_perform(httpClient->curl);
 
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *)curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
@@ -1452,7 +1462,7 @@ static Value httpClientOptions(DictuVM *vm, int argCount, Value *args) {
 
         /* Check for errors */
         if (curlResponse != CURLE_OK) {
-            pop(vm);
+            discardResponse(vm, &response);
 
             char *errorString = (char *) curl_easy_strerror(curlResponse);
             return newResultError(vm, errorString);
-- 
2.43.0


From bbcd1289e9656b6b2e5e7c5c48c91004aff7751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:31 +0000
Subject: [PATCH 159/165] fix: Socket.write to a peer that has closed is an
 error Result, not the end of the process

---
 src/optionals/socket.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index d7251d0..e5e0651 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -17,13 +17,16 @@ unsigned long inet_addr_new(const char* cp) {
 #define inet_addr(cp) inet_addr_new(cp)
 #endif
 
-#define write(fd, buffer, count) _write(fd, buffer, count)
 #define close(fd) closesocket(fd)
 #else
 #include <sys/socket.h>
 #include <arpa/inet.h>
 #endif
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 typedef struct {
     int socket;
     int socketFamily;    /* Address family, e.g., AF_INET */
@@ -169,7 +172,8 @@ static Value writeSocket(DictuVM *vm, int argCount, Value *args) {
     SocketData *sock = AS_SOCKET(args[0]);
     ObjString *message = AS_STRING(args[1]);
 
-    int writeRet = write(sock->socket , message->chars, message->length);
+    // Not write(): a peer that is gone is an error, not the end of the process
+    int writeRet = send(sock->socket, message->chars, message->length, MSG_NOSIGNAL);
 
     if (writeRet == -1) {
         ERROR_RESULT;
-- 
2.43.0


From f6e436ffa29c50014530c161b2b5f0541e6b0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 160/165] fix: A closed socket stays closed: using it again
 could reach another open file or socket

---
 src/optionals/socket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optionals/socket.c b/src/optionals/socket.c
index e5e0651..60ae1fe 100644
--- a/src/optionals/socket.c
+++ b/src/optionals/socket.c
@@ -259,6 +259,8 @@ static Value closeSocket(DictuVM *vm, int argCount, Value *args) {
 
     SocketData *sock = AS_SOCKET(args[0]);
     close(sock->socket);
+    // The number may soon belong to another file or socket
+    sock->socket = -1;
 
     return NIL_VAL;
 }
-- 
2.43.0


From e3ec94b943f7ff774f732efc838ec78796e0f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:48 +0000
Subject: [PATCH 161/165] fix: free the text of a missing key after reporting
 it

---
 src/vm/vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 82ad0c7..f9636e1 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1969,7 +1969,11 @@ static DictuInterpretResult run(DictuVM *vm) {
                         DISPATCH();
                     }
 
-                    RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                    STORE_FRAME;
+                    char *str = valueToString(indexValue);
+                    runtimeError(vm, "Key %s does not exist within dictionary.", str);
+                    free(str);
+                    return INTERPRET_RUNTIME_ERROR;
                 }
 
                 default: {
@@ -2070,7 +2074,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
                     Value dictValue;
                     if (!dictGet(dict, indexValue, &dictValue)) {
-                        RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                        STORE_FRAME;
+                        char *str = valueToString(indexValue);
+                        runtimeError(vm, "Key %s does not exist within dictionary.", str);
+                        free(str);
+                        return INTERPRET_RUNTIME_ERROR;
                     }
 
                     vm->stackTop[-1] = dictValue;
-- 
2.43.0


From 19d9423c35407bef07b998852473f1e83daf87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:20 +0000
Subject: [PATCH 162/165] fix: FFI.load refuses what is not a string, and a
 library it could not load no longer crashes at the end

---
 src/optionals/ffi/ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optionals/ffi/ffi.c b/src/optionals/ffi/ffi.c
index 90adec1..fc03308 100644
--- a/src/optionals/ffi/ffi.c
+++ b/src/optionals/ffi/ffi.c
@@ -57,6 +57,8 @@ void *ffi_function_pointers[] = {&copyString,
 
 void freeFFI(DictuVM *vm, ObjAbstract *abstract) {
     FFIInstance *instance = (FFIInstance *)abstract->data;
+    if (instance == NULL)
+        return;
     free(instance->path);
 #ifdef _WIN32
     FreeLibrary(instance->library);
@@ -87,6 +89,10 @@ static Value load(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "load() takes one argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "load() argument must be a string");
+        return EMPTY_VAL;
+    }
     ObjString *path = AS_STRING(args[0]);
 #ifdef _WIN32
     HMODULE library = LoadLibrary(path->chars);
-- 
2.43.0


From cfe5c1fa6589ab71bf9a5af4540376544ff1a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:34 +0000
Subject: [PATCH 163/165] fix: Term.getSize reports the pixel sizes, and zeros
 rather than stack garbage without a terminal

---
 src/optionals/term.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optionals/term.c b/src/optionals/term.c
index aebc7c3..21a856d 100644
--- a/src/optionals/term.c
+++ b/src/optionals/term.c
@@ -58,7 +58,7 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     ObjString *verticalPixels = copyString(vm, "vertical_pixels", 15);
     push(vm, OBJ_VAL(verticalPixels));
 
-    struct winsize w;
+    struct winsize w = {0};
     ioctl(0, TIOCGWINSZ, &w);
 
     dictSet(vm, terminalSizeDict, OBJ_VAL(lines), NUMBER_VAL(w.ws_row));
@@ -67,10 +67,10 @@ static Value getSizeNative(DictuVM *vm, int argCount, Value *args) {
     dictSet(vm, terminalSizeDict, OBJ_VAL(columns), NUMBER_VAL(w.ws_col));
     pop(vm);
 
-    dictSet(vm, terminalSizeDict, OBJ_VAL(horizontalPixesl), NUMBER_VAL(w.ws_col));
+    dictSet(vm, terminalSizeDict, OBJ_VAL(horizontalPixesl), NUMBER_VAL(w.ws_xpixel));
     pop(vm);
 
-    dictSet(vm, terminalSizeDict, OBJ_VAL(verticalPixels), NUMBER_VAL(w.ws_col));
+    dictSet(vm, terminalSizeDict, OBJ_VAL(verticalPixels), NUMBER_VAL(w.ws_ypixel));
     pop(vm);
 #endif
 
-- 
2.43.0


From 74fadb76c15b708ac1f4187d09eb41253af1a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 164/165] fix: System.time, clock, collect, getCWD and
 Buffer.readString, subarray refuse surplus arguments

---
 src/optionals/buffer.c | 10 ++++++++++
 src/optionals/system.c | 28 ++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index f476e0f..309725f 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -855,6 +855,11 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
     size_t start = 0;
     size_t end = buffer->size;
     int length = buffer->size;
+    if (argCount > 2) {
+        runtimeError(vm, "readString() takes up to 2 arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
+
     if (argCount > 0) {
         if (!IS_NUMBER(args[1])) {
             runtimeError(vm, "readString() start argument must be a number");
@@ -899,6 +904,11 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
     size_t start = 0;
     size_t end = buffer->size;
     int length = buffer->size;
+    if (argCount > 2) {
+        runtimeError(vm, "subarray() takes up to 2 arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
+
     if (argCount > 0) {
         if (!IS_NUMBER(args[1])) {
             runtimeError(vm, "subarray() start argument must be a number");
diff --git a/src/optionals/system.c b/src/optionals/system.c
index 0b6256c..99dca0e 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -394,7 +394,12 @@ static Value setCWDNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value getCWDNative(DictuVM *vm, int argCount, Value *args) {
-    UNUSED(argCount); UNUSED(args);
+    UNUSED(args);
+
+    if (argCount != 0) {
+        runtimeError(vm, "getCWD() takes no arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
 
     char cwd[PATH_MAX];
 
@@ -406,19 +411,34 @@ static Value getCWDNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 static Value timeNative(DictuVM *vm, int argCount, Value *args) {
-    UNUSED(vm); UNUSED(argCount); UNUSED(args);
+    UNUSED(args);
+
+    if (argCount != 0) {
+        runtimeError(vm, "time() takes no arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
 
     return NUMBER_VAL((double) time(NULL));
 }
 
 static Value clockNative(DictuVM *vm, int argCount, Value *args) {
-    UNUSED(vm); UNUSED(argCount); UNUSED(args);
+    UNUSED(args);
+
+    if (argCount != 0) {
+        runtimeError(vm, "clock() takes no arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
 
     return NUMBER_VAL((double) clock() / CLOCKS_PER_SEC);
 }
 
 static Value collectNative(DictuVM *vm, int argCount, Value *args) {
-    UNUSED(argCount); UNUSED(args);
+    UNUSED(args);
+
+    if (argCount != 0) {
+        runtimeError(vm, "collect() takes no arguments (%d given).", argCount);
+        return EMPTY_VAL;
+    }
 
     collectGarbage(vm);
     return NIL_VAL;
-- 
2.43.0


From c49e9b95a72f8ca8a2d2713d34053ffb7493364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 165/165] fix: HTTP.RESPONSE_HEADER_ACCESS_CONTROL_* name their
 own headers

---
 src/optionals/http/http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/optionals/http/http.c b/src/optionals/http/http.c
index ef1322c..f1b7f7a 100644
--- a/src/optionals/http/http.c
+++ b/src/optionals/http/http.c
@@ -186,11 +186,11 @@
 #define HTTP_REQUEST_HEADER_WARNING                        "Warning"
 
 #define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN      "Access-Control-Allow-Origin"
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_CREDENTIALS HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_EXPOSE_HEADERS    HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_MAX_AGE           HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_METHODS     HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
-#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_HEADERS     HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_ORIGIN
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_CREDENTIALS "Access-Control-Allow-Credentials"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_EXPOSE_HEADERS    "Access-Control-Expose-Headers"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_MAX_AGE           "Access-Control-Max-Age"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_METHODS     "Access-Control-Allow-Methods"
+#define HTTP_RESPONSE_HEADER_ACCESS_CONTROL_ALLOW_HEADERS     "Access-Control-Allow-Headers"
 #define HTTP_RESPONSE_HEADER_ACCEPT_PATCH                     "Accept-Patch"
 #define HTTP_RESPONSE_HEADER_ACCEPT_RANGES                    "Accept-Ranges"
 #define HTTP_RESPONSE_HEADER_AGE                              "Age"
-- 
2.43.0

