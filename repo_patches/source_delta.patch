From 624cd0f7d96c6390c44bbefde1f25977dedddb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:00 +0000
Subject: [PATCH 01/41] fix: token width autodetection of the integer packers
 (constant data, 32-bit range, most negative integer)

---
 src/packers/compact_integer.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/packers/compact_integer.c b/src/packers/compact_integer.c
index 61e3439..01b98cf 100644
--- a/src/packers/compact_integer.c
+++ b/src/packers/compact_integer.c
@@ -211,7 +211,10 @@
    shiftRequired = 0;                                                    \
    if ( bitSizeOfPackedToken == -1 )                                     \
      {                                                                   \
-       bitSizeOfPackedToken = bitRequiredForRange;                       \
+       /* a constant array still needs one bit per token */              \
+       bitSizeOfPackedToken = bitRequiredForRange > 0 ?                  \
+                              bitRequiredForRange : 1;                   \
+       cleanupMask = ((uint32_t)(~0)>>(wordSize-bitSizeOfPackedToken));  \
      }                                                                   \
    else                                                                  \
      {                                                                   \
@@ -456,7 +459,8 @@ int  compact_integer( void *unpackedArrayOfInt, void *packedHeader, void *packed
 
                 FindMinMax(arrayOfSignedUnpacked, minSignedInteger, maxSignedInteger);
 
-                maxSpan    = ( abs(minSignedInteger) > maxSignedInteger ) ? abs(minSignedInteger) :
+                /* ~min is -min-1 : a signed token of n bits holds -2**(n-1), and abs(min) may overflow */
+                maxSpan    = ( ~minSignedInteger > maxSignedInteger ) ? ~minSignedInteger :
                              maxSignedInteger;
               }
             else if (  opCode == 1 )
@@ -485,6 +489,10 @@ int  compact_integer( void *unpackedArrayOfInt, void *packedHeader, void *packed
               {/* accomodate the signed bit */
                 bitSizeOfPackedToken++;
               };
+            if ( bitSizeOfPackedToken == 0 )
+              {/* all elements are 0 : a token size of 0 would not be unpacked */
+                bitSizeOfPackedToken = 1;
+              };
             cleanupMask = ((uint32_t)(~0)>>(wordSize-bitSizeOfPackedToken));
           };/* if */
 
@@ -734,6 +742,10 @@ int  compact_short( void *unpackedArrayOfShort, void *packedHeader, void *packed
               {/* accomodate the signed bit */
                 bitSizeOfPackedToken++;
               };
+            if ( bitSizeOfPackedToken == 0 )
+              {/* all elements are 0 : a token size of 0 would not be unpacked */
+                bitSizeOfPackedToken = 1;
+              };
             cleanupMask = ((uint32_t)(~0)>>(wordSize-bitSizeOfPackedToken));
           };/* if */
 
@@ -972,6 +984,10 @@ int  compact_char( void *unpackedArrayOfBytes, void *packedHeader, void *packedA
               {/* accomodate the signed bit */
                 bitSizeOfPackedToken++;
               };
+            if ( bitSizeOfPackedToken == 0 )
+              {/* all elements are 0 : a token size of 0 would not be unpacked */
+                bitSizeOfPackedToken = 1;
+              };
             cleanupMask = ((uint32_t)(~0)>>(wordSize-bitSizeOfPackedToken));
           };/* if */
 
-- 
2.43.0


From db6e44704d62598ca88123c53a761fc4ff857bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:06 +0000
Subject: [PATCH 02/41] fix: f_bits_get skipped a word when a 32 bit slice was
 requested from a full reservoir

---
 src/primitives/f_bit_slicer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/f_bit_slicer.c b/src/primitives/f_bit_slicer.c
index 02fc4ce..1bc6fa4 100644
--- a/src/primitives/f_bit_slicer.c
+++ b/src/primitives/f_bit_slicer.c
@@ -56,9 +56,10 @@ void f77name(f_bits_get)(int32_t *bit_array, int32_t *bits_per_slice, int32_t *s
     if(current > 32) current=32;
     if(current <= 0)                  /* 0 bit slice, the easy answer is 0 */
       temp_slice = 0;
-    else if((current==32) && (left==32))
-      temp_slice = *bit_array++ ;
-    else if(left >= current){         /* enough bits in reservoir to satisfy request */
+    else if((current==32) && (left==32)) {
+      temp_slice = mybits;            /* the full reservoir is the answer */
+      left = 0;
+    } else if(left >= current){         /* enough bits in reservoir to satisfy request */
       register unsigned int temp = ( -1 << (32-current));   /* extraction mask */
       temp = (temp & mybits) >> (32-current);               /* extract and align right */
       temp_slice = temp;
-- 
2.43.0


From 9e04d7ec83f972b6b10b1ab1b2c895240bb98eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 03/41] fix: fstring_to_cstring wrote before its buffer for an
 all-blank string

---
 src/fstd98/FC_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/FC_string.c b/src/fstd98/FC_string.c
index 31a9970..5f6eed9 100644
--- a/src/fstd98/FC_string.c
+++ b/src/fstd98/FC_string.c
@@ -70,6 +70,7 @@ char *fstring_to_cstring(char *fstring, const int nc, int rmblanks)
         while ((i > 0) && (*ctemp == ' ')) {
             *ctemp = '\0';
             ctemp--;
+            i--;
         }
     }
 
-- 
2.43.0


From 7bedfd2f719248a609294384a87d92d126872d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 04/41] fix: rah2char shifted the word again for every
 character and lost all but the first when nc is 2 or 3

---
 src/primitives/rah2char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/rah2char.c b/src/primitives/rah2char.c
index abb11fb..dff0922 100644
--- a/src/primitives/rah2char.c
+++ b/src/primitives/rah2char.c
@@ -32,8 +32,8 @@ void f77name(rah2char)(char *chaine, int32_t *f_entier, const int32_t * const f_
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: nc(%d) > lng(%d) using lng\n",__func__,nc,lng);
         nc = lng;
     }
+    if (nc > 0) entier <<= ((8 * sizeof(entier)) - (nc * 8));
     for (int i = 0; i < nc; i++) {
-        entier <<= ((8 * sizeof(entier)) - (nc * 8));
         *chaine = (entier >> 8 * sizeof(entier) - 8) & 0xFF;
         entier <<= 8;
         chaine++;
-- 
2.43.0


From f1b4f882e960ace22eba6898c102328caeb9e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 05/41] fix: char2rah sign-extended characters above 127 over
 the preceding ones

---
 src/primitives/rah2char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/rah2char.c b/src/primitives/rah2char.c
index dff0922..9fa9e98 100644
--- a/src/primitives/rah2char.c
+++ b/src/primitives/rah2char.c
@@ -51,6 +51,6 @@ void f77name(char2rah)(char *chaine, int32_t *entier, const int32_t * const f_nc
 
     for (int i = 0; i < nc; i++) {
         *entier <<= 8;
-        *entier |= chaine[i];
+        *entier |= (unsigned char) chaine[i];
     }
 }
-- 
2.43.0


From 4bdb11d9c7f2b09c8de8ba25418b9864b816631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 06/41] fix: ftn2c_string_copy read one character past the
 source string

---
 src/primitives/ftn2c_helper_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 9bc0c9f..17726db 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -35,7 +35,7 @@ int ftn2c_string_copy(
 ) {
     int i;
     // If there is a null before lsrc characters in the source string, act as if it was terminated at null
-    for (i = 0 ; src[i] != 0 && i < lsrc; i++);
+    for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
     while (src[lsrc - 1] == ' ') lsrc--;
-- 
2.43.0


From 7fed8944aaee50c8613f27db297a8b0f59459217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 07/41] fix: ftn2c_string_copy read before the source string
 when it is all blank

---
 src/primitives/ftn2c_helper_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 17726db..870ebf9 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -38,7 +38,7 @@ int ftn2c_string_copy(
     for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
-    while (src[lsrc - 1] == ' ') lsrc--;
+    while (lsrc > 0 && src[lsrc - 1] == ' ') lsrc--;
     // No destination, just return trimmed source length
     if (dest == NULL) return lsrc;
     // Trimmed source longer than destination!
-- 
2.43.0


From 7872bfc52907289a41a266edf13d2b42f4b70484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 08/41] fix: memcpy_16_32 sign-extended 16-bit tokens of
 unsigned data

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d01ae1..609f63f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -128,7 +128,7 @@ static void memcpy_16_8(int8_t *p8, int16_t *p16, int nb) {
 
 
 static void memcpy_16_32(int32_t *p32, int16_t *p16, int nbits, int nb) {
-    int16_t mask = ~ (-1 << nbits);
+    int32_t mask = ~ (-1 << nbits);
     for (int i = 0; i < nb; i++) {
         *p32++ = *p16++ & mask;
     }
-- 
2.43.0


From c0d5ec58c792e9db1704769efe805f0b8e65aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 09/41] fix: missing value decoders never restored the first
 element

---
 src/fstd98/fst_missing.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 8eecee0..2c4e4d5 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -745,7 +745,7 @@ static void fst_float_decode_missing(
     float max, min;
     fld_float_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = float_missing_val;
         }
@@ -763,7 +763,7 @@ static void fst_double_decode_missing(
     double max, min;
     fld_double_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = double_missing_val;
         }
@@ -781,7 +781,7 @@ static void fst_int_decode_missing(
     int max, min;
     fld_int_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = int_missing_val;
         }
@@ -799,7 +799,7 @@ static void fst_short_decode_missing(
     short max, min;
     fld_short_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = short_missing_val;
         }
@@ -817,7 +817,7 @@ static void fst_byte_decode_missing(
     char max, min;
     fld_byte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = byte_missing_val;
         }
@@ -835,7 +835,7 @@ static void fst_uint_decode_missing(
     unsigned int max, min;
     fld_uint_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = uint_missing_val;
         }
@@ -853,7 +853,7 @@ static void fst_ushort_decode_missing(
     unsigned short max, min;
     fld_ushort_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ushort_missing_val;
         }
@@ -871,7 +871,7 @@ static void fst_ubyte_decode_missing(
     unsigned char max, min;
     fld_ubyte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ubyte_missing_val;
         }
-- 
2.43.0


From 2888d78ec432585b91f9301fcb892443def2bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 10/41] fix: missing value code of signed short and byte fields
 was always -1

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 2c4e4d5..b8c567b 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -1036,7 +1036,7 @@ static int fst_short_encode_missing(
     int missing = fld_short_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    short plug2 = 0xFFFF;
+    unsigned short plug2 = 0xFFFF;
     if (nbits < 16) {
         plug2 = plug2 >> (16 - nbits);
     }
@@ -1097,7 +1097,7 @@ static int fst_byte_encode_missing(
     int missing = fld_byte_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    char plug2 = 0xFF;
+    unsigned char plug2 = 0xFF;
     if (nbits < 8) {
         plug2 = plug2 >> (8 - nbits);
     }
-- 
2.43.0


From 49be531b88fe5e87864524ca46241b8c6c65c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 11/41] fix: missing value code of a constant negative real
 field was below its maximum

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index b8c567b..25b8b26 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -910,7 +910,7 @@ static int fst_double_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : ((max > 0.0) ? max * 2.0 : 0.0);
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == double_missing_val) {
@@ -949,7 +949,7 @@ static int fst_float_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : ((max > 0.0) ? max * 2.0 : 0.0);
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == float_missing_val) {
-- 
2.43.0


From f48e98e28bbcf3fc611c13e8d2fdd42ca3a12651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 12/41] fix: missing value decoders replaced the largest valid
 value when the code is the missing value itself

---
 src/fstd98/fst_missing.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 25b8b26..f25b906 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -743,7 +743,9 @@ static void fst_float_decode_missing(
     if (missing_value_used() == 0) return;
 
     float max, min;
-    fld_float_anal(field, nElems, &max, &min);
+    const int missing = fld_float_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && float_missing_val > max) max = float_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -761,7 +763,9 @@ static void fst_double_decode_missing(
     if (missing_value_used() == 0) return;
 
     double max, min;
-    fld_double_anal(field, nElems, &max, &min);
+    const int missing = fld_double_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && double_missing_val > max) max = double_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -779,7 +783,9 @@ static void fst_int_decode_missing(
     if (missing_value_used() == 0) return;
 
     int max, min;
-    fld_int_anal(field, nElems, &max, &min);
+    const int missing = fld_int_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && int_missing_val > max) max = int_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -797,7 +803,9 @@ static void fst_short_decode_missing(
     if (missing_value_used() == 0) return;
 
     short max, min;
-    fld_short_anal(field, nElems, &max, &min);
+    const int missing = fld_short_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && short_missing_val > max) max = short_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -815,7 +823,9 @@ static void fst_byte_decode_missing(
     if (missing_value_used() == 0) return;
 
     char max, min;
-    fld_byte_anal(field, nElems, &max, &min);
+    const int missing = fld_byte_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && byte_missing_val > max) max = byte_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -833,7 +843,9 @@ static void fst_uint_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned int max, min;
-    fld_uint_anal(field, nElems, &max, &min);
+    const int missing = fld_uint_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && uint_missing_val > max) max = uint_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -851,7 +863,9 @@ static void fst_ushort_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned short max, min;
-    fld_ushort_anal(field, nElems, &max, &min);
+    const int missing = fld_ushort_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && ushort_missing_val > max) max = ushort_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -869,7 +883,9 @@ static void fst_ubyte_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned char max, min;
-    fld_ubyte_anal(field, nElems, &max, &min);
+    const int missing = fld_ubyte_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (missing > 0 && ubyte_missing_val > max) max = ubyte_missing_val;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
-- 
2.43.0


From 8059861cf26dcc73bd0d83dfe8acd67e86f3b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 13/41] fix: jar insertion past the capacity zero-filled memory
 beyond the jar before failing

---
 src/serializer/jar_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index 5111451..e441451 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -369,10 +369,10 @@ module rmn_jar
             insertion_pos = jar_instance%top                                        ! insert after data currently in jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
-        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
+        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
         call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-- 
2.43.0


From 6987668432c67937bebbb46a0d9d6441820065b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 14/41] fix: reject handles of records or pages past the end of
 the directory

Record number nent and page number npages designate nothing.
---
 src/fstd98/fstd98.c | 11 ++++++++++-
 src/fstd98/xdf98.c  |  8 ++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 609f63f..6a751c3 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1429,6 +1429,11 @@ int c_fst_edit_dir_plus(
 
     f = file_table[index];
 
+    if (f == NULL) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is not open with handle=%d\n",__func__,handle);
+        return(ERR_NO_FILE);
+    }
+
     if (! f->cur_info->attr.std) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,f->iun);
         return(ERR_NO_FILE);
@@ -1450,7 +1455,7 @@ int c_fst_edit_dir_plus(
     strncpy(grtyp, in_grtyp, l4);
 
     pageno = PAGENO_FROM_HANDLE(handle);
-    if (pageno > f->npages) {
+    if (pageno >= f->npages) {
         /* page is not in current file */
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
         return(ERR_BAD_PAGENO);
@@ -1458,6 +1463,10 @@ int c_fst_edit_dir_plus(
 
     recno = RECORD_FROM_HANDLE(handle);
     /*  printf("Debug+ c_fst_edit_dir pageno=%d recno=%d\n", pageno, recno); */
+    if (recno >= (f->dir_page[pageno])->dir.nent) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
+        return(ERR_BAD_HNDL);
+    }
     width = W64TOWD(f->primary_len);
     entry = (f->dir_page[pageno])->dir.entry + recno * width;
     stdf_entry = (stdf_dir_keys *) entry;
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5cbe474..b2fac95 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -997,7 +997,7 @@ int c_xdfdel(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -1092,7 +1092,7 @@ int c_xdfget2(
             f = file_table[target_page->true_file_index];
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2108,7 +2108,7 @@ int c_xdfprm(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2238,7 +2238,7 @@ int c_xdfput(
                 }
             }
 
-            if (record_number > f->cur_dir_page->dir.nent) {
+            if (record_number >= f->cur_dir_page->dir.nent) {
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
                 return(ERR_BAD_HNDL);
             }
-- 
2.43.0


From caac4c03104a28138aebde3813b5cb9574b5402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 15/41] fix: searching from a handle of a linked file reaches
 the right directory page

The bound of the page walk shrank while walking, and the page of a linked
file was taken from the page table of the first file.
---
 src/fstd98/xdf98.c | 47 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b2fac95..b1769b0 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1661,33 +1661,28 @@ int c_xdfloc2(
     }
 
     if ((handle != -1) && (! f->xdf_seq)) {
-        if (pageno != f->cur_pageno) {
-            if (pageno < f->npages) {
-                // Page is in current file
-                f->cur_dir_page = f->dir_page[pageno];
-                f->cur_pageno = pageno;
-            } else {
-                // Page is in a link file
-                if (f->link == -1) {
-                    Lib_Log(APP_LIBFST,APP_ERROR,"%s: page number=%d > last page=%d and file not linked\n",__func__,pageno,f->npages-1);
-                    f->cur_entry = NULL;
-                    return(ERR_BAD_PAGENO);
-                }
-                f->cur_dir_page = f->dir_page[f->npages - 1];
-                f->cur_pageno = f->npages - 1;
-                for (i = 0; (i <= pageno - f->cur_pageno) && (f->cur_dir_page); i++) {
-                    f->cur_dir_page = (f->cur_dir_page)->next_page;
-                    f->cur_pageno++;
-                }
-                if (f->cur_dir_page == NULL) {
-                    Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
-                    f->cur_entry = NULL;
-                    return(ERR_BAD_PAGENO);
-                }
-            }
+        if (pageno < f->npages) {
+            // Page is in current file
+            f->cur_dir_page = f->dir_page[pageno];
+            f->cur_pageno = pageno;
         } else {
-            // Just to make sure
-            f->cur_dir_page = f->dir_page[f->cur_pageno];
+            // Page is in a link file
+            if (f->link == -1) {
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: page number=%d > last page=%d and file not linked\n",__func__,pageno,f->npages-1);
+                f->cur_entry = NULL;
+                return(ERR_BAD_PAGENO);
+            }
+            f->cur_dir_page = f->dir_page[f->npages - 1];
+            f->cur_pageno = f->npages - 1;
+            for (i = 0; (i <= pageno - f->npages) && (f->cur_dir_page); i++) {
+                f->cur_dir_page = (f->cur_dir_page)->next_page;
+                f->cur_pageno++;
+            }
+            if (f->cur_dir_page == NULL) {
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
+                f->cur_entry = NULL;
+                return(ERR_BAD_PAGENO);
+            }
         }
         f->cur_entry = (f->cur_dir_page)->dir.entry + record * W64TOWD(f->primary_len);
         f->page_record = record;
-- 
2.43.0


From 5d4998ee8be88d0415dab13273bceaba278891a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 16/41] fix: clear the whole of a new directory page

primary_len counts 64-bit units, the entries are 32-bit words; half of the
page was written uninitialised.
---
 src/fstd98/xdf98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b1769b0..84dea7c 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -165,7 +165,7 @@ static int32_t add_dir_page(
     page->dir.nxt_addr = 0;
     page->dir.nent = 0;
     page->dir.chksum = 0;
-    for (i = 0; i <= fte->primary_len*ENTRIES_PER_PAGE; i++) {
+    for (i = 0; i < W64TOWD(fte->primary_len)*ENTRIES_PER_PAGE; i++) {
         page->dir.entry[i] = 0;
     }
     if (wflag) {
-- 
2.43.0


From c241cfaea4bb9df19b8b53fd7ce5453cf8874db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 17/41] fix: keep the current page number with the current page
 when writing

A search continued after a write gave handles of another page.
---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 84dea7c..bdf1645 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -2238,6 +2238,7 @@ int c_xdfput(
                 return(ERR_BAD_HNDL);
             }
 
+            f->cur_pageno = page_number;
             f->cur_entry = f->cur_dir_page->dir.entry + record_number * W64TOWD(f->primary_len);
 
             record = (file_record *) f->cur_entry;
@@ -2281,6 +2282,7 @@ int c_xdfput(
             if (err < 0) return err;
             f->cur_dir_page = f->dir_page[f->npages-1];
             f->cur_entry = f->cur_dir_page->dir.entry;
+            f->cur_pageno = f->npages - 1;
         } else {
             f->cur_entry = f->cur_dir_page->dir.entry + f->cur_dir_page->dir.nent * W64TOWD(f->primary_len);
         }
-- 
2.43.0


From f87e70c02b2c29b25d167391978cbfcdd081cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 18/41] fix: accept 8-bit character data when cutting or
 replacing in a record

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index bdf1645..d3b3659 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -912,7 +912,7 @@ int c_xdfcut(
       return(ERR_BAD_ADDR);
    }
 
-   if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+   if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
       Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
       return(ERR_BAD_DATYP);
    }
@@ -2399,7 +2399,7 @@ int c_xdfrep(
         return(ERR_BAD_ADDR);
     }
 
-    if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+    if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
         return(ERR_BAD_DATYP);
     }
-- 
2.43.0


From 5ecb6fb50d3fb8e5b3064cda29388b8baf129e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 19/41] fix: record buffer edits stay inside the buffer

The dimension of a record buffer includes its header; insertions and reads
could write up to ten words past its end, and cutting or inserting moved
one word too many.
---
 src/fstd98/xdf98.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index d3b3659..8cbf9ef 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -27,6 +27,7 @@
 */
 
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
@@ -47,6 +48,11 @@
 
 static int endian_int = 1;
 static char *little_endian = (char *)&endian_int;
+
+//! Number of words of a record buffer that come before its data
+#define BUF_HEADER_WORDS ((int)(offsetof(buffer_interface, data) / sizeof(uint32_t)))
+//! Number of words of data a record buffer can hold (nwords counts the whole buffer)
+#define BUF_CAPACITY(buf) ((int)(buf)->nwords - BUF_HEADER_WORDS)
 static int req_no = 0;
 static int init_package_done = 0;
 
@@ -668,7 +674,7 @@ int c_xdfadd(
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     int index_word = buf->nbits / (sizeof(uint32_t) * 8);
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
@@ -926,10 +932,10 @@ int c_xdfcut(
 
    // Move buffer content nbwords to the left
    if (last_ind != index_word) {
-      for (i=index_word; i <= last_ind-nbwords; i++) {
+      for (i=index_word; i < last_ind-nbwords; i++) {
          buf->data[i] = buf->data[i+nbwords];
       }
-      for( ; i <= last_ind; i++) {
+      for( ; i < last_ind; i++) {
          buf->data[i] = 0 ;
       }
    }
@@ -1144,7 +1150,7 @@ int c_xdfget2(
             }
         }
     }
-    if (lngw > (nw - RECADDR +1)) {
+    if (lngw > (nw - BUF_HEADER_WORDS)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: dimension of buf (%d) < record size (%d)\n",__func__,nw,lngw);
         return(ERR_BAD_DIM);
     }
@@ -1427,14 +1433,14 @@ int c_xdfins(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((last_ind + nbwords - 1) > buf->nwords) {
+    if ((last_ind + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
 
     // Move buffer content nbwords to the right for insertion
     if (last_ind != index_word) {
-        for (i = last_ind; i >= index_word; i--) {
+        for (i = last_ind - 1; i >= index_word; i--) {
             buf->data[i + nbwords] = buf->data[i];
         }
     }
@@ -2411,7 +2417,7 @@ int c_xdfrep(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > BUF_CAPACITY(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for replacemen\n",__func__);
         return(ERR_BAD_DIM);
     }
-- 
2.43.0


From 4dff6e6fa8f9bdea524e1722e17d6093a36330b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 20/41] fix: do not compress fields of more than one plane

Only the first plane was compressed; the others were lost on reading.
---
 src/compresseur/c_zfstlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compresseur/c_zfstlib.c b/src/compresseur/c_zfstlib.c
index 1f8031e..ab7be36 100644
--- a/src/compresseur/c_zfstlib.c
+++ b/src/compresseur/c_zfstlib.c
@@ -107,8 +107,8 @@ int armn_compress(
 
     switch (op_code) {
         case COMPRESS:
-            if (nbits > 16 || ni == 1 || nj == 1) {
-                Lib_Log(APP_LIBFST,APP_WARNING,"%f: Cannot compress if nbits>16 or ni=1 or nj=1. Returning original field\n",__func__);
+            if (nbits > 16 || ni == 1 || nj == 1 || nk > 1) {
+                Lib_Log(APP_LIBFST,APP_WARNING,"%f: Cannot compress if nbits>16 or ni=1 or nj=1 or nk>1. Returning original field\n",__func__);
                 return -1;
             }
 
-- 
2.43.0


From c2ce4e77e175f201628818017805a8aae197c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 21/41] fix: a field that does not compress is written where
 and as its data type says

The fallback of type 130 packed the data one word too far, packed short and
byte fields as 32-bit integers, and all fallbacks lost the missing value flag.
---
 src/fstd98/fstd98.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 6a751c3..1ed7573 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1171,7 +1171,7 @@ int c_fstecr(
                         ni * nj * nk, nbits + 64 * Max(16, nbits), 0, xdf_stride, 1, 0, &tempfloat);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+5]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 1;
+                        stdf_entry->datyp = is_missing | 1;
                         packfunc(field, &(buffer->data[keys_len]), &(buffer->data[keys_len+3]),
                             ni * nj * nk, nbits, 24, xdf_stride, 1, 0, &tempfloat);
                     } else {
@@ -1194,6 +1194,7 @@ int c_fstecr(
                 /* integer, short integer or byte stream */
                 {
                     int offset = (datyp > 128) ? 1 :0;
+                    int compressed_lng = -1;
                     if (datyp > 128) {
                         if (xdf_short) {
                             stdf_entry->nbits = Min(16, nbits);
@@ -1207,12 +1208,12 @@ int c_fstecr(
                             memcpy_32_16((short *)&(buffer->data[keys_len+offset]), field, nbits, ni * nj * nk);
                         }
                         c_armn_compress_setswap(0);
-                        int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+offset]), ni, nj, nk, nbits, 1);
+                        compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+offset]), ni, nj, nk, nbits, 1);
                         c_armn_compress_setswap(1);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 2;
-                            compact_integer(field, (void *) NULL, &(buffer->data[keys_len+offset]),
-                                ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            // written as an uncompressed record below
+                            stdf_entry->datyp = is_missing | 2;
+                            offset = 0;
                         } else {
                             int nbytes = 4 + compressed_lng;
                             // fprintf(stderr, "Debug+ fstecr armn_compress compressed_lng=%d\n", compressed_lng);
@@ -1221,7 +1222,8 @@ int c_fstecr(
                             buffer->data[keys_len] = nw;
                             buffer->nbits = (keys_len + nw) * bitmot;
                         }
-                    } else {
+                    }
+                    if (compressed_lng < 0) {
                         if (xdf_short) {
                             stdf_entry->nbits = Min(16, nbits);
                             nbits = stdf_entry->nbits;
@@ -1308,7 +1310,7 @@ int c_fstecr(
                         /* use an additionnal compression scheme */
                         int compressed_lng = c_armn_compress32((unsigned char *)&(buffer->data[keys_len+1]), (float *)field, ni, nj, nk, nbits);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 5;
+                            stdf_entry->datyp = is_missing | 5;
                             f77name(ieeepak)(field, &(buffer->data[keys_len]), &f_ni, &f_njnk, &f_minus_nbits,
                                 &f_zero, &f_one);
                         } else {
@@ -1334,7 +1336,7 @@ int c_fstecr(
                     c_float_packer((float *)field, nbits, &(buffer->data[keys_len+1]), &(buffer->data[keys_len+1+header_size]), ni * nj * nk);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+1+header_size]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 6;
+                        stdf_entry->datyp = is_missing | 6;
                         c_float_packer((float *)field, nbits, &(buffer->data[keys_len]), &(buffer->data[keys_len+header_size]), ni * nj * nk);
                     } else {
                         int nbytes = 16 + (header_size*4) + compressed_lng;
-- 
2.43.0


From 484f103580b43fdb3b86cbab776767879eb8ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 22/41] fix: read byte fields with the number of bits they were
 written with

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1ed7573..c446e56 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2330,7 +2330,7 @@ int c_fstluk(
                             // printf("Debug+ fstluk xdf_byte armn_compress nbytes=%d nelm=%d\n", nbytes, nelm);
                             memcpy_16_8((int8_t *)field, (int16_t *)(buf->data + offset), nelm);
                         } else {
-                            ier = compact_char(field, (void *) NULL, buf->data, nelm, 8, 0, xdf_stride, 10);
+                            ier = compact_char(field, (void *) NULL, buf->data, nelm, stdf_entry.nbits, 0, xdf_stride, 10);
                         }
                     } else {
                         if (stdf_entry.datyp > 128) {
-- 
2.43.0


From 7bfa3bb45469ccb9f9257218cfada132f2e4228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 23/41] fix: unpack floating point tokens with the spacing they
 were packed with

Tokens kept in wider slots (data type 129) were read back as if contiguous.
---
 src/packers/compact.tmplc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f3a74c9..f5b3f9a 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -355,7 +355,9 @@ void *compact_FLOAT_TYPE(
         }
 
         tokenSize = theHeader->bitSize;
-        EffectivePackedTokenSize = tokenSize;
+        if (packedTokenBitSize <= 64) {
+            EffectivePackedTokenSize = tokenSize;
+        }
         if ( tokenSize != wordSize ) {
             missingToken = ~(-1 << tokenSize);
         } else {
-- 
2.43.0


From 056c7a0225aa815d330b45a475d9e807a91ad99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 24/41] fix: do not compress IEEE fields of more than one plane

Only the first plane was compressed; the others were lost on reading.
---
 src/compresseur/armn_compress_32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compresseur/armn_compress_32.c b/src/compresseur/armn_compress_32.c
index 2aa6403..58057de 100644
--- a/src/compresseur/armn_compress_32.c
+++ b/src/compresseur/armn_compress_32.c
@@ -82,9 +82,9 @@ int c_armn_compress32(
     _fstzip zfstzip;
     _floatint r_exp_max;
 
-    if (ni < 16 || nj < 16) {
+    if (ni < 16 || nj < 16 || nk > 1) {
         zlng = -1;
-        Lib_Log(APP_LIBFST,APP_WARNING,"%s: The dimensions of NI and NJ have to be > 16\n",__func__);
+        Lib_Log(APP_LIBFST,APP_WARNING,"%s: The dimensions of NI and NJ have to be > 16 and NK has to be 1\n",__func__);
         return zlng;
     }
 
-- 
2.43.0


From 04d3119c8883f1dad943e1120d862e9642b24253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 25/41] fix: compress byte fields as unsigned values

Values above 127 were sign-extended before compression and did not survive.
---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c446e56..aebf714 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -115,7 +115,7 @@ static void str_cp_init(char * const dst, const int dstLen, const char * const s
 
 static void memcpy_8_16(int16_t *p16, int8_t *p8, int nb) {
     for (int i = 0; i < nb; i++) {
-        *p16++ = *p8++;
+        *p16++ = *p8++ & 0xFF;
     }
 }
 
-- 
2.43.0


From 1fcd302b246a48ea1777ab842f661aeb4135f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 26/41] fix: erasing or rewriting a record of a linked file
 does not touch the wrong file

---
 src/fstd98/xdf98.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 8cbf9ef..bff0a49 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1001,6 +1001,12 @@ int c_xdfdel(
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
                 return(ERR_BAD_PAGENO);
             }
+            // The record belongs to that other file
+            f = file_table[target_page->true_file_index];
+            if ((f->header->rwflg == RDMODE) || (f->header->rwflg == APPEND) || f->cur_info->attr.read_only) {
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: linked file is read only\n",__func__);
+                return(ERR_RDONLY);
+            }
         }
 
         if (record_number >= target_page->dir.nent) {
@@ -2237,6 +2243,10 @@ int c_xdfput(
                     Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
                     return(ERR_BAD_PAGENO);
                 }
+                if (f->cur_dir_page->true_file_index != index) {
+                    Lib_Log(APP_LIBFST,APP_ERROR,"%s: record is in a linked file, iun and handle do not match\n",__func__);
+                    return(ERR_BAD_HNDL);
+                }
             }
 
             if (record_number >= f->cur_dir_page->dir.nent) {
-- 
2.43.0


From 0efb82da4ac101bed717360089e608dbb34cbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 27/41] fix: editing a record of a file open read-only is
 refused

The edit was reported as done and lost.
---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index aebf714..df2892b 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1446,6 +1446,11 @@ int c_fst_edit_dir_plus(
         return(ERR_NO_FILE);
     }
 
+    if ((f->header->rwflg == RDMODE) || (f->cur_info->attr.read_only)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) has no write permission\n",__func__,f->iun);
+        return(ERR_NO_WRITE);
+    }
+
     l1 = Min(strlen(typvar), strlen(in_typvar));
     l2 = Min(strlen(nomvar), strlen(in_nomvar));
     l3 = Min(strlen(etiket), strlen(in_etiket));
-- 
2.43.0


From 65b4bbae6d15715f1c86b3034a5be92dc27fb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 28/41] fix: a search over equivalent encodings of ip2 or ip3
 alone compares them

---
 src/fstd98/fstd98.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index df2892b..c1a73fd 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1845,19 +1845,9 @@ int c_fstinfx(
         int nomatch = 1;
         while ((lhandle >=  0) && (nomatch)) {
             nomatch = 0;
-            if ((ip1s_flag) && (ip1 >= 0)) {
-                if (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0) {
-                    nomatch = 1;
-                } else if ((ip2s_flag) && (ip2 >= 0)) {
-                    if (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0) {
-                        nomatch = 1;
-                    } else if ((ip3s_flag) && (ip3 >= 0)) {
-                        if (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0) {
-                            nomatch = 1;
-                        }
-                    }
-                }
-            }
+            if ((ip1s_flag) && (ip1 >= 0) && (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0)) nomatch = 1;
+            if ((ip2s_flag) && (ip2 >= 0) && (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0)) nomatch = 1;
+            if ((ip3s_flag) && (ip3 >= 0) && (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0)) nomatch = 1;
             if (nomatch) {
                 lhandle = c_xdfloc2(iun, -1, pkeys, 16, pmask);
                 if (lhandle >= 0) c_xdfprm(lhandle, &addr, &lng, &idtyp, pkeys, 16);
-- 
2.43.0


From 6777514b135a4c951236e150b331bf8207553c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 29/41] fix: the record length limit is checked without
 overflow

---
 src/fstd98/fstd98.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c1a73fd..b3a7c92 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -901,7 +901,10 @@ int c_fstecr(
     VALID(ip1, 0, IP1_MAX, "ip1", "c_fstecr")
     VALID(ip2, 0, IP2_MAX, "ip2", "c_fstecr")
     VALID(ip3, 0, IP3_MAX, "ip3", "c_fstecr")
-    VALID(ni * nj * nk * nbits / FTN_Bitmot, 0, MAX_RECORD_LENGTH, "record length > 128MB", "c_fstecr");
+    if ((double)ni * nj * nk * nbits / FTN_Bitmot > MAX_RECORD_LENGTH) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: record length > 128MB\n",__func__);
+        return(ERR_OUT_RANGE);
+    }
 
     unsigned int datev = date;
     int32_t f_datev = (int32_t) datev;
-- 
2.43.0


From 530d5751d95dd081bc24851689d033ccad0ac90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 30/41] fix: the origin date of a record is computed whatever
 its time step and number of steps

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index b3a7c92..c01e86f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -265,7 +265,7 @@ static void crack_std_parms(
     cracked_parms->date_valid = datexx;
     cracked_parms->date_stamp = datexx;
     int32_t ftn_date = (int32_t) datexx;
-    if ((stdf_entry->deet * stdf_entry->npas) != 0) {
+    if ((stdf_entry->deet != 0) && (stdf_entry->npas != 0)) {
         /* compute origin date */
         f77name(incdatr)(&ftn_date, &ftn_date, &r8_diff);
         cracked_parms->date_stamp = (int) ftn_date;
-- 
2.43.0


From 2f2f8cc231276c7b019d3c40c831fab5d376207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:44 +0000
Subject: [PATCH 31/41] fix: float_packer treats zero and denormalized elements
 as zero

The minimum and maximum of a block are taken as 0 when their exponent is 0,
but the elements themselves received a hidden 1. In a block whose largest
exponent is below 24, a zero element then lay outside of the range of the
block (its token could exceed the requested number of bits, or be negative).
---
 src/packers/float_packer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packers/float_packer.c b/src/packers/float_packer.c
index 49a9605..b82ea0d 100644
--- a/src/packers/float_packer.c
+++ b/src/packers/float_packer.c
@@ -189,6 +189,7 @@ int32_t float_packer_1(float *source, int32_t nbits, int32_t *header, int32_t *s
     if (Shift > 31) Shift = 31;
     Mantis = Mantis >> Shift;
     if( Src >> 31 ) Mantis = - Mantis;
+    if (Exp < 1) Mantis = 0;                /* no hidden 1, same treatment as Minimum and Maximum */
     Mantis = Mantis - Minimum;              /* subtract minimum from mantissa */
     Mantis = Mantis + Round;                /* add rounding term */
     Mantis = Mantis >> Shift2;              /* force to fit within nbits bits */
-- 
2.43.0


From da2749859e4d6bb192f92cd1c1cd616833a06537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:04 +0000
Subject: [PATCH 32/41] fix: character fields of a standard file keep their
 third dimension

The length of a character field (type 3) was computed from ni and nj only when
writing and in image mode, while it is read with ni*nj*nk characters: all but
the first level was lost.
---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c01e86f..ec74984 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1121,7 +1121,7 @@ int c_fstecr(
                 lngw = ni * nj * nk * nbits;
             }
             if (datyp == 1) lngw += 120;
-            if (datyp == 3) lngw = ni * nj * 8;
+            if (datyp == 3) lngw = ni * nj * nk * 8;
             lngw = (lngw + bitmot - 1) / bitmot;
             for (int i = 0; i < lngw; i++) {
                 buffer->data[keys_len+i] = field[i];
@@ -1249,7 +1249,7 @@ int c_fstecr(
             case 3: case 131:
                 /* character */
                 {
-                    int nc = (ni * nj + 3) / 4;
+                    int nc = (ni * nj * nk + 3) / 4;
                     if (datyp == 131) {
                         Lib_Log(APP_LIBFST,APP_WARNING,"%s: extra compression not available, data type %d reset to %d\n",__func__,stdf_entry->datyp,3);
                         datyp = 3;
@@ -2265,7 +2265,7 @@ int c_fstluk(
         } else {
             int lngw = nelm * stdf_entry.nbits;
             if (stdf_entry.datyp == 1) lngw += 120;
-            if (stdf_entry.datyp == 3) lngw = *ni * *nj * 8;
+            if (stdf_entry.datyp == 3) lngw = *ni * *nj * *nk * 8;
             if (stdf_entry.datyp == 6) {
                 c_float_packer_params(&header_size, &stream_size, &p1out, &p2out, nelm);
                 lngw = (header_size + stream_size) * 8;
-- 
2.43.0


From e1cf9054694179b1266777f09168f518cba6c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:34 +0000
Subject: [PATCH 33/41] fix: character fields written with less than 8 bits are
 not truncated

The record was sized with the given number of bits per character while
8 bits each are written: data was lost and the buffer overrun.
---
 src/fstd98/fstd98.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index ec74984..d20e4da 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -953,6 +953,12 @@ int c_fstecr(
         datyp = 1;
     }
 
+    if (! image_mode_copy && (nbits < 8)) {
+        int base_datyp = datyp & 0x3F;
+        if ((base_datyp == 3) || (base_datyp == 7)) nbits = 8;
+        // characters are always written with 8 bits each
+    }
+
     int header_size;
     int stream_size;
     int nw;
-- 
2.43.0


From 729d5061dccb4bb858933cbba6d990a56ec63312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:42 +0000
Subject: [PATCH 34/41] fix: c_fstluk: size the work buffer for the whole
 record (float-packed records of large sequential files)

---
 src/fstd98/fstd98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d20e4da..d9fc8f7 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2217,6 +2217,8 @@ int c_fstluk(
         lng2 = lng;
 
     }
+    // The record may be longer than its data (cluster alignment of sequential files)
+    lng2 = Max(lng2, lng);
 
     // printf("Debug+ fstluk lng2 = %d\n", lng2);
 
-- 
2.43.0


From d1d5e0d5e19dc93e092de2184a3d7ce9b887a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 35/41] fix: c_fstecr: missing values of a field written
 without compaction are kept

---
 src/fstd98/fstd98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d9fc8f7..71a6839 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -917,8 +917,9 @@ int c_fstecr(
     }
 
     if ((npak == 0) || (npak == 1)) {
-        /* no compaction */
+        /* no compaction, missing values are kept as they are */
         datyp = 0;
+        is_missing = 0;
     }
 
     /* allocate and initialize a buffer interface for xdfput */
-- 
2.43.0


From 078b86bde55eab31626a1839a520245e9e5404f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 36/41] fix: c_fstecr: complex fields are copied whole in image
 mode

---
 src/fstd98/fstd98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 71a6839..f6254d3 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1129,6 +1129,7 @@ int c_fstecr(
             }
             if (datyp == 1) lngw += 120;
             if (datyp == 3) lngw = ni * nj * nk * 8;
+            if (datyp == 8) lngw *= 2;
             lngw = (lngw + bitmot - 1) / bitmot;
             for (int i = 0; i < lngw; i++) {
                 buffer->data[keys_len+i] = field[i];
-- 
2.43.0


From 63f48713add172485dccdbc56799516353356e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 37/41] fix: c_fstluk: missing values of a record read in image
 mode are not decoded

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index f6254d3..ac0dd59 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2475,7 +2475,7 @@ int c_fstluk(
         stdf_entry.datyp = stdf_entry.datyp | has_missing;
         print_std_parms(&stdf_entry, string, prnt_options, -1);
     }
-    if (has_missing) {
+    if (has_missing && ! image_mode_copy) {
         // Replace "missing" data points with the appropriate values given the type of data (int/float)
         // if nbits = 64 and IEEE , set xdf_double
         if ((stdf_entry.datyp & 0xF) == 5 && stdf_entry.nbits == 64 ) xdf_double = 1;
-- 
2.43.0


From 6173ce0d94861981e9afb58c39225e43f312b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:31 +0000
Subject: [PATCH 38/41] fix: packing doubles whose minimum is below 2**-976
 does not corrupt the exponent of the range

The biased exponent of the minimum, scaled down by 48, became negative and its
sign bits spilled over the exponent of the range in the second header word, so
the whole field read back wrong. Such a minimum is below what the reader can
represent (it reads it as zero); write it with exponent zero.
---
 src/packers/compact.tmplc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f5b3f9a..b1bdcc4 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -239,6 +239,9 @@ void *compact_FLOAT_TYPE(
         signOfMinFloat = ( minFloat < 0 )? 1 : 0;
         if ( minFloat == 0.0 ) {
             scaledExpOfMinFloat = scaledExpOfMinFloat & 0x00000111;
+        } else if ( minFloatTemplate.MD.expo < 47 ) {
+            // too small for its field, read back as zero
+            scaledExpOfMinFloat = 0;
         }
 
         /*************************************************************************
-- 
2.43.0


From 929e99902f7b9b32c575dcbfa9159ad65b57de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:32 +0000
Subject: [PATCH 39/41] fix: unpacking reads a minimum between 2**-127 and
 2**-126 as the denormalized number it is

The exponent field of the header value is zero there when rebuilt as a float,
so its leading bit is not implied and the mantissa has to be shifted down by
one with its leading bit kept; the minimum was off by up to 2**-127.
---
 src/packers/compact.tmplc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index b1bdcc4..f80fbb4 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -382,6 +382,10 @@ void *compact_FLOAT_TYPE(
             minFloatTemplate.M.sign = theHeader->minSign;
             minFloatTemplate.M.expo = theHeader->minExpo + 127 - 1024 + 48;
             minFloatTemplate.M.mantis = (theHeader->minMantisa32 >> 8 ) & 0x7fffff;
+            if ( theHeader->minExpo == 849 ) {
+                // denormalized: the leading bit is not hidden
+                minFloatTemplate.M.mantis = (theHeader->minMantisa32 >> 9 ) & 0x7fffff;
+            }
             minFloat = minFloatTemplate.X;
             /*
             Lib_Log(APP_LIBRMN,APP_DEBUG,"%f: sign=%d minExpo= %d expo=%d mantis=%x minFloat=%f mulFactor=%f \n",__func__,minFloatTemplate.M.sign,theHeader->minExpo,
-- 
2.43.0


From 502d48ce6f70092c7ed2ef4d082c4c26eccfca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:09 +0000
Subject: [PATCH 40/41] fix: double packing compares elements with the missing
 value tag in double precision

The tag was first rounded to float, so a tag that is not a float was never
recognised: missing elements were packed as ordinary values and, on reading,
came back as the rounded tag.
---
 src/packers/compact.tmplc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f80fbb4..3d012e0 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -103,7 +103,7 @@ void *compact_FLOAT_TYPE(
     int currentSlot;
     uint32_t packInt;
     int significantBit, inSignificantBit;
-    float missingValueTag = *((FLOAT_TYPE *)missingTag);
+    FLOAT_TYPE missingValueTag = *((FLOAT_TYPE *)missingTag);
     uint32_t missingToken;
     int tempExpo;
     int tokenSize;
-- 
2.43.0


From f7f15e0e51aaf7f1766f551ceaaffb42831b5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:30 +0000
Subject: [PATCH 41/41] fix: packing a field whose elements are all missing
 stays within the field

The search for a first valid element had no bound and read past the end of the
field.
---
 src/packers/compact.tmplc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index 3d012e0..ccaa719 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -186,7 +186,7 @@ void *compact_FLOAT_TYPE(
             // Existence of missing value indicated
             /* initialize min and max */
             int i = 0 ;
-            while ( arrayOfFloat[i] == missingValueTag ) {
+            while ( i < ((int)floatCount - 1) * stride && arrayOfFloat[i] == missingValueTag ) {
                 i += stride;
             }
             maxFloat = arrayOfFloat[i];
-- 
2.43.0

