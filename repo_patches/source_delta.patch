From 749bb8938911d37333129573fc14ab9f8eb35f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 001/106] fix: mpi: keep the carry and borrow through all-ones
 limbs

---
 src/mpi.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..622182e 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
@@ -104,8 +105,10 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
-        carry = value < *ptra++;
+        value = *ptrb++ + carry;
+        carry = value < carry;
+        value += *ptra;
+        carry |= value < *ptra++;
         *ptrs++ = value;
 
         cnta--;
@@ -154,9 +157,10 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
     BFDEV_MPI_TYPE value;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
-        borrow = value > *ptra++;
-        *ptrs++ = value;
+        value = *ptrb++ + borrow;
+        borrow = value < borrow;
+        borrow |= *ptra < value;
+        *ptrs++ = *ptra++ - value;
 
         cnta--;
         cntb--;
-- 
2.43.0


From 2cea8345c4720b3f3ef5d9c37376e4eb9cedbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 002/106] fix: mpi: allow the destination to be either operand
 of add, sub and mul

---
 src/mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 622182e..661bfa6 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -615,6 +615,7 @@ mpi_add(bfdev_mpi_t *dest,
         return retval;
 
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -679,6 +680,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
@@ -740,7 +742,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -757,7 +759,7 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        bfdev_swap(rename->value, dest->value);
         bfdev_mpi_release(dest);
     }
 
-- 
2.43.0


From 225cb78b85b7a980335e1572bfc31c9a892ec76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 003/106] fix: mpi: never store zero as a negative number

---
 src/mpi.c | 64 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 661bfa6..2c0851d 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -442,6 +442,13 @@ mpi_relocation(bfdev_mpi_t *var)
     return length;
 }
 
+static inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    /* zero is never negative */
+    var->plus = plus || !mpi_len(var);
+}
+
 static inline int
 mpi_extend(bfdev_mpi_t *var, unsigned long length)
 {
@@ -1175,7 +1182,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1194,7 +1201,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1202,7 +1209,7 @@ bfdev_mpi_add(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = vb->plus;
+            mpi_sign(dest, vb->plus);
             break;
     }
 
@@ -1249,7 +1256,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = false;
+            mpi_sign(dest, false);
             break;
     }
 
@@ -1267,7 +1274,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = va->plus;
+        mpi_sign(dest, va->plus);
         return -BFDEV_ENOERR;
     }
 
@@ -1286,7 +1293,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
 
         case BFDEV_LT:
@@ -1294,7 +1301,7 @@ bfdev_mpi_sub(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = !vb->plus;
+            mpi_sign(dest, !vb->plus);
             break;
     }
 
@@ -1313,7 +1320,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
         if (bfdev_unlikely(retval))
             return retval;
 
-        dest->plus = false;
+        mpi_sign(dest, false);
         return -BFDEV_ENOERR;
     }
 
@@ -1333,7 +1340,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = false;
+            mpi_sign(dest, false);
             break;
 
         case BFDEV_BT:
@@ -1341,7 +1348,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            dest->plus = va->plus;
+            mpi_sign(dest, va->plus);
             break;
     }
 
@@ -1366,7 +1373,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, !(va->plus ^ vb->plus));
 
     return -BFDEV_ENOERR;
 }
@@ -1381,7 +1388,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1403,7 +1410,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            mpi_sign(quot, !(va->plus ^ vb->plus));
             rem->plus = true;
             break;
 
@@ -1413,7 +1420,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1429,8 +1436,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(quot, !(va->plus ^ vb->plus));
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1454,7 +1461,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            mpi_sign(quot, va->plus);
             rem->plus = true;
             break;
 
@@ -1464,7 +1471,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
 
             /* quot can be equal to va */
@@ -1480,8 +1487,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(quot, va->plus);
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1510,7 +1517,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1519,7 +1526,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1548,7 +1555,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, va->plus);
             }
             break;
 
@@ -1557,7 +1564,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, va->plus);
             break;
     }
 
@@ -1619,7 +1626,7 @@ bfdev_mpi_shli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1634,7 +1641,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1688,6 +1695,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1715,7 +1723,7 @@ bfdev_mpi_set(bfdev_mpi_t *dest, const bfdev_mpi_t *src)
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = src->plus;
+    mpi_sign(dest, src->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1730,7 +1738,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
-- 
2.43.0


From 7861efb06e0246bc2966ecef682abfb2d2032e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 004/106] fix: mpi: compare magnitudes when adding a word to a
 negative number, accept zero

---
 src/mpi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 2c0851d..0b0ccd1 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1232,7 +1232,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
@@ -1244,7 +1244,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
 
         case BFDEV_LT:
             value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            retval = mpi_seti(dest, value ? vi - *value : vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
@@ -1336,7 +1336,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
 
         case BFDEV_LT:
             value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            retval = mpi_seti(dest, value ? vi - *value : vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
-- 
2.43.0


From 1bcb0d179ad15286a4848ac6dd4abb28f837b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 005/106] fix: mpi: normalize the divisor, handle shared
 operands and refuse every division by zero

---
 src/mpi.c | 273 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 141 insertions(+), 132 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 0b0ccd1..a870a2f 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -799,6 +799,12 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
         return -BFDEV_ENOERR;
     }
 
+    if (!mpi_len(rem)) {
+        retval = bfdev_array_reserve(&rem->value, 1);
+        if (bfdev_unlikely(retval))
+            return retval;
+    }
+
     retval = mpi_resize(quot, length);
     if (bfdev_unlikely(retval))
         return retval;
@@ -810,7 +816,7 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        return mpi_seti(rem, value);
 
     return -BFDEV_ENOERR;
 }
@@ -835,125 +841,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
-    unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
-
-        return -BFDEV_ENOERR;
-    }
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
-
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
-    if (bfdev_unlikely(retval))
-        return retval;
-
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
-
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
-
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
-
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
-
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
-    }
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_mod(bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
-
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
 
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
@@ -1129,6 +1018,98 @@ mpi_shri(bfdev_mpi_t *dest,
     return -BFDEV_ENOERR;
 }
 
+static inline int
+mpi_divmod(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+           const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_DEFINE_MPI(result, rem->alloc);
+    BFDEV_DEFINE_MPI(num, rem->alloc);
+    BFDEV_DEFINE_MPI(div, rem->alloc);
+    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
+    unsigned long cnta, cntb, length, shift;
+    int retval;
+
+    /* normalize the divisor, as required by mpa_divrem */
+    cntb = mpi_len(vb);
+    ptrb = mpi_val(vb);
+    shift = BFDEV_MPI_BITS - bfdev_fls(ptrb[cntb - 1]);
+
+    retval = mpi_shli(&div, vb, shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    retval = mpi_shli(&num, va, shift);
+    if (bfdev_unlikely(retval))
+        goto finish;
+
+    cnta = mpi_len(&num);
+    length = cnta - cntb;
+    ptrs = NULL;
+
+    if (quot) {
+        result = BFDEV_MPI_INIT(quot->alloc);
+        retval = mpi_resize(&result, length + 1);
+        if (bfdev_unlikely(retval))
+            goto finish;
+
+        ptrs = mpi_val(&result);
+    }
+
+    ptra = mpi_val(&num);
+    ptrb = mpi_val(&div);
+
+    if (!ptrs)
+        mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
+    else {
+        ptrs[length] = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
+        mpi_relocation(&result);
+    }
+
+    BFDEV_BUG_ON(mpi_resize(&num, cntb));
+    mpi_relocation(&num);
+    BFDEV_BUG_ON(mpi_shri(&num, &num, shift));
+
+    /* the quotient prevails when both share one object */
+    bfdev_swap(rem->value, num.value);
+    if (quot)
+        bfdev_swap(quot->value, result.value);
+
+finish:
+    bfdev_mpi_release(&result);
+    bfdev_mpi_release(&num);
+    bfdev_mpi_release(&div);
+
+    return retval;
+}
+
+static inline int
+mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (mpi_len(vb) == 1)
+        return mpi_divi(quot, rem, va, *ptrb);
+
+    return mpi_divmod(quot, rem, va, vb);
+}
+
+static inline int
+mpi_mod(bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (mpi_len(vb) == 1)
+        return mpi_modi(rem, va, *ptrb);
+
+    return mpi_divmod(NULL, rem, va, vb);
+}
+
 /**
  * Multi Precision Integers (signed).
  *
@@ -1397,8 +1378,13 @@ export int
 bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
+    bool quot_plus;
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1406,12 +1392,16 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
-            if (bfdev_unlikely(retval))
-                return retval;
+            quot_plus = !(va->plus ^ vb->plus);
+            if (quot != rem) {
+                retval = mpi_seti(rem, 0);
+                if (bfdev_unlikely(retval))
+                    return retval;
 
-            mpi_sign(quot, !(va->plus ^ vb->plus));
-            rem->plus = true;
+                rem->plus = true;
+            }
+
+            mpi_sign(quot, quot_plus);
             break;
 
         case BFDEV_LT:
@@ -1436,8 +1426,9 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, !(va->plus ^ vb->plus));
+            quot_plus = !(va->plus ^ vb->plus);
             mpi_sign(rem, va->plus);
+            mpi_sign(quot, quot_plus);
             break;
     }
 
@@ -1448,8 +1439,13 @@ export int
 bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
+    bool quot_plus;
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1457,12 +1453,16 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            retval = mpi_seti(rem, 0);
-            if (bfdev_unlikely(retval))
-                return retval;
+            quot_plus = va->plus;
+            if (quot != rem) {
+                retval = mpi_seti(rem, 0);
+                if (bfdev_unlikely(retval))
+                    return retval;
 
-            mpi_sign(quot, va->plus);
-            rem->plus = true;
+                rem->plus = true;
+            }
+
+            mpi_sign(quot, quot_plus);
             break;
 
         case BFDEV_LT:
@@ -1487,8 +1487,9 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            mpi_sign(quot, va->plus);
-            mpi_sign(rem, va->plus);
+            quot_plus = va->plus;
+            mpi_sign(rem, quot_plus);
+            mpi_sign(quot, quot_plus);
             break;
     }
 
@@ -1501,6 +1502,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1539,6 +1544,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From 0c88a4b6f0f0998a8affae59a0d2c6f889a3ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 006/106] fix: mpi: shifting right by more than the length
 gives zero

---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index a870a2f..a4a1d3b 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1002,7 +1002,7 @@ mpi_shri(bfdev_mpi_t *dest,
         return mpi_set(dest, va);
 
     length = mpi_len(va);
-    if (!length)
+    if (shift / BFDEV_MPI_BITS >= length)
         return mpi_seti(dest, 0);
 
     retval = mpi_resize(dest, length);
-- 
2.43.0


From 6ff1bd7cfcc8a2c21fbcd13d03fc7af54db3d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 007/106] fix: bitmap: shift right the partial last word

---
 src/bitmap.c | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..fa89a74 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -221,30 +221,21 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
-
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+    for (index = 0; index < length - offset; ++index) {
+        vlow = src[index + offset];
+        if (index + offset + 1 == length)
+            vlow &= BFDEV_BIT_LOW_MASK(bits);
+
+        vhigh = 0;
+        if (rem && index + offset + 1 < length) {
+            vhigh = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                vhigh &= BFDEV_BIT_LOW_MASK(bits);
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        }
+
+        value = vhigh | (vlow >> rem);
+        dest[index] = value;
     }
 
     if (offset)
-- 
2.43.0


From 9db8809f73633d89e5693e8ee6b8056bf5cbb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 008/106] fix: bitmap: range set and clear inside one word must
 not run past it

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index fa89a74..829a478 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -293,7 +293,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -318,7 +318,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 7a10a1dc24aa6154826179a3d9a4f934b51c941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 009/106] fix: bitmap: constant length comparisons returned the
 opposite answer

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From 23610ec5b58d3b5485e4a1316b127b4333926b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 010/106] fix: bitmap: constant length shifts by a word or more
 give zero

---
 include/bfdev/bitmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index d398b3d..0ab9126 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -160,7 +160,7 @@ bfdev_bitmap_shl(unsigned long *dest, const unsigned long *src,
     if (!bfdev_const_small_nbits(bits))
         return bfdev_bitmap_comp_shl(dest, src, shift, bits);
 
-    value = *src << shift;
+    value = shift < BFDEV_BITS_PER_LONG ? *src << shift : 0;
     *dest = value & BFDEV_BIT_LOW_MASK(bits);
 }
 
@@ -174,7 +174,7 @@ bfdev_bitmap_shr(unsigned long *dest, const unsigned long *src,
         return bfdev_bitmap_comp_shr(dest, src, shift, bits);
 
     value = *src & BFDEV_BIT_LOW_MASK(bits);
-    *dest = value >> shift;
+    *dest = shift < BFDEV_BITS_PER_LONG ? value >> shift : 0;
 }
 
 static __bfdev_always_inline void
-- 
2.43.0


From 5e8958b02c03c0cba1154b5cab8beaec61961f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 011/106] fix: bitwalk: zero searches over a constant length of
 one whole word

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From df8de2ed50a0799d6e8fc4bef37e19db4200bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 012/106] fix: bitops: count from the top in flnsp of an
 all-ones word

---
 include/bfdev/asm-generic/bitops.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..b700c36 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -586,7 +586,8 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
     unsigned int bit;
 
     if (word == ULONG_MAX)
-        return *nr;
+        return *nr < BFDEV_BITS_PER_LONG ?
+            BFDEV_BITS_PER_LONG - 1 - *nr : BFDEV_BITS_PER_LONG;
 
     while (word) {
         bit = bfdev_arch_flsuf(word);
-- 
2.43.0


From c4acd30f1075a0b476ae91dc0fb7bff75186700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 013/106] fix: bitops: flnsp64 named the wrong function

---
 include/bfdev/bitops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From 60fd1657efe2770e9c81217dc7414932373b2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 014/106] fix: math: parenthesize round_down

---
 include/bfdev/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..a5e4ca7 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -35,7 +35,7 @@ BFDEV_BEGIN_DECLS
  * @y: multiple to round down to (must be a power of 2).
  */
 #define bfdev_round_down(x, y) ( \
-    (x) & ~bfdev_round_mask(x, y) \
+    ((x) & ~bfdev_round_mask(x, y)) \
 )
 
 /**
-- 
2.43.0


From bb13d668fc4952233f4c47825cc4f6b95b1d51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 015/106] fix: align: an alignment narrower than the value must
 not clear its high bits

---
 include/bfdev/align.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/align.h b/include/bfdev/align.h
index eea4361..7b04c0b 100644
--- a/include/bfdev/align.h
+++ b/include/bfdev/align.h
@@ -38,7 +38,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_low(value, align) ({ \
-    (value) & ~((align) - 1); \
+    (value) & ~((typeof((value) + (align)))(align) - 1); \
 })
 
 /**
@@ -47,7 +47,7 @@ BFDEV_BEGIN_DECLS
  * @align: alignment size.
  */
 #define bfdev_align_high(value, align) ({ \
-    typeof(align) __align = (align); \
+    typeof((value) + (align)) __align = (align); \
     ((value) + (__align - 1)) & ~(__align - 1); \
 })
 
-- 
2.43.0


From ce9617b1b6068615c9e920c6d27e8b9b057ab91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 016/106] fix: math: BFDEV_DIV_ROUND_CLOSEST did not compile
 for any expression

---
 include/bfdev/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index a5e4ca7..5175ff4 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -54,10 +54,10 @@ BFDEV_BEGIN_DECLS
  * dividends if the divisor variable type is unsigned.
  */
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
-    typeof(x) __x = x;                          \
-    typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    typeof(x) __x = (x);                          \
+    typeof(divisor) __d = (divisor);              \
+    (bfdev_is_unsigned(typeof(x)) ||                    \
+     bfdev_is_unsigned(typeof(divisor)) ||              \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From 2a643f5c18a6e26e3f8a144aa02aca82257cd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 017/106] fix: bitrev: constant reversal swapped two bits of
 32- and 64-bit words

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From 642cd4e0a520050772a56f200df00ecbc082abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 018/106] fix: dword: compare both words before the normalized
 double-word division

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..ec1d1a2 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -85,7 +85,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From 5ba3a571a5a20ed891a31c0e3e23eb0149378316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 019/106] fix: byteorder: define the big-endian array
 conversions the long macros name

---
 include/bfdev/asm-generic/byteorder.h | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/bfdev/asm-generic/byteorder.h b/include/bfdev/asm-generic/byteorder.h
index 1d40b74..cf5766a 100644
--- a/include/bfdev/asm-generic/byteorder.h
+++ b/include/bfdev/asm-generic/byteorder.h
@@ -51,6 +51,36 @@ BFDEV_GENERIC_BYTEORDER_ARRAY(
     uint64_t, bfdev_le64, bfdev_le64_to_cpu
 )
 
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be16_array,
+    bfdev_be16, uint16_t, bfdev_cpu_to_be16
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be32_array,
+    bfdev_be32, uint32_t, bfdev_cpu_to_be32
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_cpu_to_be64_array,
+    bfdev_be64, uint64_t, bfdev_cpu_to_be64
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be16_to_cpu_array,
+    uint16_t, bfdev_be16, bfdev_be16_to_cpu
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be32_to_cpu_array,
+    uint32_t, bfdev_be32, bfdev_be32_to_cpu
+)
+
+BFDEV_GENERIC_BYTEORDER_ARRAY(
+    bfdev_be64_to_cpu_array,
+    uint64_t, bfdev_be64, bfdev_be64_to_cpu
+)
+
 BFDEV_END_DECLS
 
 #endif /* _BFDEV_ASM_GENERIC_BYTEORDER_H_ */
-- 
2.43.0


From fb3a5cf1ee34c9e3a6ee466c21e02fcfc565eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 020/106] fix: bitfield: a value whose high bits are shifted
 out does not fit

---
 include/bfdev/bitfield.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitfield.h b/include/bfdev/bitfield.h
index 6dcd94e..89e9acd 100644
--- a/include/bfdev/bitfield.h
+++ b/include/bfdev/bitfield.h
@@ -38,7 +38,7 @@ BFDEV_BEGIN_DECLS
  */
 #define BFDEV_FIELD_FIT(mask, val) ({ \
     typeof(mask) _mask = (mask); \
-    !((((typeof(mask))(val)) << bfdev_ffsuf(_mask)) & ~(_mask)); \
+    (typeof(mask))(val) <= (typeof(mask))(_mask >> bfdev_ffsuf(_mask)); \
 })
 
 /**
-- 
2.43.0


From 435c2431f06f8198de44ec3aa1ed7b534b9df666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 021/106] fix: matrix: transpose from the source into the
 destination

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8cf3d9e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -136,8 +136,8 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
-- 
2.43.0


From 8292eb9c4b553d2b6a0b930444037cd0b39f59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 022/106] fix: matrix: address elements in row-major order and
 check the rows

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8cf3d9e..2b53d4d 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -202,10 +202,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (var->row <= row || var->col <= col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 400f18b7c429474875010857437206e82d579448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 023/106] fix: matrix: refuse a product or import whose element
 count overflows

---
 src/matrix.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 2b53d4d..2e59d12 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -5,6 +5,7 @@
 
 #include <base.h>
 #include <bfdev/matrix.h>
+#include <bfdev/overflow.h>
 #include <export.h>
 
 static inline void
@@ -75,13 +76,15 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
     if (va->col != vb->row)
         return -BFDEV_EINVAL;
 
+    if (bfdev_overflow_check_mul(va->row, vb->col, &size))
+        return -BFDEV_EOVERFLOW;
+
     rename = NULL;
     if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
 
-    size = va->row * vb->col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -181,7 +184,9 @@ bfdev_matrix_import(bfdev_matrix_t *var, const BFDEV_MATRIX_TYPE *buffer,
     void *dbuf;
     int retval;
 
-    size = row * col;
+    if (bfdev_overflow_check_mul(row, col, &size))
+        return -BFDEV_EOVERFLOW;
+
     retval = bfdev_array_resize(&var->value, size);
     if (bfdev_unlikely(retval))
         return retval;
-- 
2.43.0


From dc7bb4d1c35d2a2c9ccbf20bee6033812f1469ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 024/106] fix: array: refuse a growth whose byte size overflows

---
 src/array.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..9ba2bb0 100644
--- a/src/array.c
+++ b/src/array.c
@@ -6,6 +6,7 @@
 
 #include <base.h>
 #include <bfdev/array.h>
+#include <bfdev/limits.h>
 #include <bfdev/overflow.h>
 #include <export.h>
 
@@ -16,9 +17,13 @@ array_reqsize(bfdev_array_t *array, unsigned long count)
     size_t size;
 
     request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    if (bfdev_overflow_check_mul(request, array->cells, &size))
+        return 0;
 
-    return size;
+    if (bfdev_unlikely(size > BFDEV_SIZE_MAX / 2 + 1))
+        return 0;
+
+    return bfdev_pow2_roundup(size);
 }
 
 static inline int
@@ -47,6 +52,9 @@ array_apply(bfdev_array_t *array, unsigned long count)
         return -BFDEV_ENOERR;
 
     reqsize = array_reqsize(array, count);
+    if (bfdev_unlikely(!reqsize))
+        return -BFDEV_EOVERFLOW;
+
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
     return array_resize(array, reqsize);
-- 
2.43.0


From ef20188c6f83f548b1026f94f5c4bc2476f21d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 025/106] fix: array: do not truncate the element count to int

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 9ba2bb0..6647ae4 100644
--- a/src/array.c
+++ b/src/array.c
@@ -16,7 +16,7 @@ array_reqsize(bfdev_array_t *array, unsigned long count)
     unsigned long request;
     size_t size;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
     if (bfdev_overflow_check_mul(request, array->cells, &size))
         return 0;
 
-- 
2.43.0


From e983e9f32921bf6d7247c03b695bff555a929f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 026/106] fix: fifo: write the record header at the input
 position

---
 src/fifo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..4c63861 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -80,7 +80,7 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = fifo->in;
     data = fifo->data;
 
     if (fifo->esize != 1) {
-- 
2.43.0


From 7cfcc4c4d48766aef512385169f22795fb7afbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 027/106] fix: fifo: read the record header in the byte order
 it is written

---
 src/fifo.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index 4c63861..b5ebaec 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -51,12 +51,14 @@ static __bfdev_always_inline unsigned long
 fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
 {
     unsigned long mask, offset, length;
+    unsigned int shift;
     uint8_t *data;
 
     mask = fifo->mask;
     offset = fifo->out;
     data = fifo->data;
     length = 0;
+    shift = 0;
 
     if (fifo->esize != 1) {
         offset *= fifo->esize;
@@ -65,8 +67,8 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     }
 
     while (recsize--) {
-        length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
+        length |= (unsigned long)data[offset & mask] << shift;
+        shift += BFDEV_BITS_PER_U8;
         offset += fifo->esize;
     }
 
-- 
2.43.0


From af46c253667c618748fbaed6e46c2157ec60aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 028/106] fix: fifo: locate record headers for element sizes
 that are not a power of two

---
 src/fifo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index b5ebaec..e517b13 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -60,16 +60,10 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     length = 0;
     shift = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        length |= (unsigned long)data[offset & mask] << shift;
+        length |= (unsigned long)data[(offset & mask) * fifo->esize] << shift;
         shift += BFDEV_BITS_PER_U8;
-        offset += fifo->esize;
+        offset++;
     }
 
     return length;
@@ -85,15 +79,9 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     offset = fifo->in;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += fifo->esize;
+        data[(offset & mask) * fifo->esize] = (uint8_t)len;
+        offset++;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
-- 
2.43.0


From 77e18269d5985b01535220081d5bf61ae5a66458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 029/106] fix: fifo: refuse a record whose length does not fit
 its header

---
 src/fifo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fifo.c b/src/fifo.c
index e517b13..4ae51f0 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -177,7 +177,13 @@ export unsigned long
 bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
                      unsigned long record)
 {
-    if (len + record > fifo_unused(fifo))
+    unsigned long unused;
+
+    unused = fifo_unused(fifo);
+    if (record > unused || len > unused - record)
+        return 0;
+
+    if (record < sizeof(len) && len >> (record * BFDEV_BITS_PER_U8))
         return 0;
 
     fifo_record_poke(fifo, len, record);
-- 
2.43.0


From 1c9a5577c69e7e586936992fe025d515b7604731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 030/106] fix: fifo: count the record of a single element in
 elements

---
 include/bfdev/fifo.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..5073a52 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +336,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +365,8 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, sizeof(__tvalue) / __fifo->esize,    \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
-- 
2.43.0


From 8fcf76eff493e3e448327860c6a15f28c495b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 031/106] fix: ringbuf: write the record header at the input
 position

---
 src/ringbuf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..d547747 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -74,13 +74,13 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 }
 
 static __bfdev_always_inline void
-ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long recsize)
+ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len,
+                    unsigned long offset, unsigned long recsize)
 {
-    unsigned long mask, offset;
+    unsigned long mask;
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
     data = ringbuf->data;
 
     if (ringbuf->esize != 1) {
@@ -216,7 +216,7 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
         overflow -= bfdev_min(datalen, overflow);
     }
 
-    ringbuf_record_poke(ringbuf, len, record);
+    ringbuf_record_poke(ringbuf, len, offset - record, record);
     ringbuf_in_copy(ringbuf, buff, len, offset);
 
     return len;
-- 
2.43.0


From d2fcfa5ed37cdecc06710496fda8ef9da24df537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 032/106] fix: ringbuf: read the record header in the byte
 order it is written

---
 src/ringbuf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index d547747..9735362 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -51,12 +51,14 @@ static __bfdev_always_inline unsigned long
 ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 {
     unsigned long mask, offset, length;
+    unsigned int shift;
     uint8_t *data;
 
     mask = ringbuf->mask;
     offset = ringbuf->out;
     data = ringbuf->data;
     length = 0;
+    shift = 0;
 
     if (ringbuf->esize != 1) {
         offset *= ringbuf->esize;
@@ -65,8 +67,8 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     }
 
     while (recsize--) {
-        length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
+        length |= (unsigned long)data[offset & mask] << shift;
+        shift += BFDEV_BITS_PER_U8;
         offset += ringbuf->esize;
     }
 
-- 
2.43.0


From 0afbc18ec33b7fe79ed1c0cecc25d9c6f117ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 033/106] fix: ringbuf: locate record headers for element sizes
 that are not a power of two

---
 src/ringbuf.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index 9735362..ac735c8 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -60,16 +60,10 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     length = 0;
     shift = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        length |= (unsigned long)data[offset & mask] << shift;
+        length |= (unsigned long)data[(offset & mask) * ringbuf->esize] << shift;
         shift += BFDEV_BITS_PER_U8;
-        offset += ringbuf->esize;
+        offset++;
     }
 
     return length;
@@ -85,15 +79,9 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len,
     mask = ringbuf->mask;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += ringbuf->esize;
+        data[(offset & mask) * ringbuf->esize] = (uint8_t)len;
+        offset++;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
-- 
2.43.0


From 12925a240b7a0eccb4f0612747f53f09accb61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 034/106] fix: ringbuf: shorten a record to the capacity left
 by its header

---
 src/ringbuf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index ac735c8..74fc315 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -194,6 +194,12 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
     unsigned long overflow, datalen;
 
     size = ringbuf->mask + 1;
+    if (record > size)
+        return 0;
+
+    size -= record;
+    if (record < sizeof(size))
+        bfdev_min_adj(size, (1UL << (record * BFDEV_BITS_PER_U8)) - 1);
     bfdev_min_adj(len, size);
 
     offset = ringbuf->in + record;
-- 
2.43.0


From d121e69641f6f42962de196869272e9535dbec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 035/106] fix: ringbuf: count the record of a single element in
 elements

---
 include/bfdev/ringbuf.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..1557625 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +336,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, sizeof(*__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +365,8 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, sizeof(__tvalue) / __ringbuf->esize, \
+            __recsize);                                     \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
-- 
2.43.0


From 6f3474c7b6825c03d79bb17db77e10e7794020e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 036/106] fix: circle: use the declared variable in
 BFDEV_CIRCLE_SPACE_END

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..b07b75b 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;             \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From 3db7c6bdee74efa42bacaacca2f9543599161eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 037/106] fix: allocator: refuse an array whose byte size
 overflows

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..39c35e9 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_malloc(alloc, bytes);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_zalloc(alloc, bytes);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t bytes;
+
+    if (bfdev_overflow_check_mul(nr, size, &bytes))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, bytes);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From 72dfe83e83ef0edb0df63544376c849391da96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 038/106] fix: hlist: link the successor back to the node
 inserted after

---
 include/bfdev/hlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..ee4d3d3 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
-- 
2.43.0


From 505d9d2d85811dade4a1a3c53e3115d947055739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 039/106] fix: hlist: insert before a node without linking it
 to itself

---
 include/bfdev/hlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index ee4d3d3..e7a9f21 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
     *node->pprev = newn;
+    node->pprev = &newn->next;
 }
 
 /**
-- 
2.43.0


From eff914f629db34c7cc4b936f738c201a3bf760bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 040/106] fix: ilist: hand the index over to the next equal
 member on deletion

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From d6b017296e909deab3198865dd2eabf4c9767e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 041/106] fix: rbtree: name bfdev_rb_cached_remove_augmented

---
 include/bfdev/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..ef443e1 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
-- 
2.43.0


From 973f47ce7cf9cd26ce3c2317561317700da76f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 042/106] fix: rbtree: pass the leftmost argument of
 bfdev_rb_cached_find_last

---
 include/bfdev/rbtree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index ef443e1..bcc315e 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From f6a1f9ca508d212f118b602daa52073633f9bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 043/106] fix: segtree: set the subtree end before rebalancing
 moves the node

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..559098d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -160,6 +160,7 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
                                                                             \
     parent = NULL;                                                          \
     leftmost = true;                                                        \
+    node->STSUBTREE = end;                                                  \
                                                                             \
     while (*link) {                                                         \
         parent = bfdev_rb_entry(*link, STSTRUCT, STRB);                     \
@@ -177,7 +178,6 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 4da31c6e024fa6fdbebc1fb30909533c4b9d5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 044/106] fix: heap: find a position on the level of the
 position

---
 src/heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..63abece 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,10 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    if (bfdev_unlikely(!index))
+        return NULL;
+
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From ab612616259a5efaf3d90169ad18f9acfbe6005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 045/106] fix: btree: keep the order when splitting a node with
 an odd number of keys

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..2c73dde 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
-- 
2.43.0


From add3bef859859128f693388fe3c3acb38d21c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 046/106] fix: btree: do not compare a removed key with the
 slot behind a full node

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 2c73dde..0653c80 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -508,7 +508,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index == layout->keynum || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
-- 
2.43.0


From bb4c854849fedc164509cef68789e65b8af1d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 047/106] fix: btree: an emptied tree has no last key

---
 src/btree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 0653c80..a9ef412 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -619,7 +619,10 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (!last--)
+        return NULL;
+
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From 887042237379e556cd965ab463f8d041185be281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 048/106] fix: btree: the successor of an absent key is not the
 one after it

---
 src/btree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index a9ef412..ba6e3cf 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -645,7 +645,9 @@ bfdev_btree_next(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_find_parent(root, key, depth);
         index = bnode_find_index(root, node, key);
         fill = bnode_fill_index(root, node, index);
-        if (++index < fill)
+        if (depth > 1 || (index < fill && !bnode_cmp_key(root, node, index, key)))
+            ++index;
+        if (index < fill)
             break;
     }
 
-- 
2.43.0


From 8038c38baec6551f323c32701c6df495063ab973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 049/106] fix: btree: refuse to update a key to no value

---
 src/btree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index ba6e3cf..4312e8e 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -296,6 +296,9 @@ bfdev_btree_update(bfdev_btree_root_t *root, uintptr_t *key, void *value)
     bfdev_btree_node_t *node;
     unsigned int index;
 
+    if (bfdev_unlikely(!value))
+        return -BFDEV_EINVAL;
+
     node = bnode_lookup(root, key);
     if (!node)
         return -BFDEV_ENOENT;
-- 
2.43.0


From fb34df94cc63d7117db72d10018830eb18cc3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 050/106] fix: btree: use the existing key copy in the safe
 from iterators

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..63fe090 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                               \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                       \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From f768f49a52e0f0800a771550b50593f1111a102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 051/106] fix: skiplist: raise the current level only once the
 node is allocated

---
 src/skiplist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..e875f53 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,14 +71,15 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
+
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
     node->key = key;
+    bfdev_max_adj(head->curr, level);
+
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
 
-- 
2.43.0


From ef23f1cdfa8dc1d2bc304101edbf0be952dc0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 052/106] fix: radix: exact capacity check and room for the
 topmost level

---
 src/radix.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index c29b352..f16e202 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -31,6 +31,15 @@ radix_depth_index(unsigned int level, uintptr_t offset)
     return (offset >> radix_depth_shift(level)) & RADIX_ARY_MASK;
 }
 
+static __bfdev_always_inline bool
+radix_depth_contain(unsigned int level, uintptr_t offset)
+{
+    unsigned int shift;
+
+    shift = radix_depth_shift(level);
+    return shift >= BFDEV_BITS_PER_LONG || !(offset >> shift);
+}
+
 static bool
 radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
              struct radix_parent *parent)
@@ -42,7 +51,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
     BFDEV_BUG_ON(level > RADIX_LEVEL_MAX);
 
     /* Directly check capacity overflow */
-    if (bfdev_ilog2(offset) > radix_depth_shift(level))
+    if (!radix_depth_contain(level, offset))
         return false;
 
     node = root->node;
@@ -70,7 +79,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
 export void *
 bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int index;
     bool contain;
@@ -101,7 +110,7 @@ radix_extend(bfdev_radix_root_t *root, uintptr_t offset)
         node = root->node;
         level = root->level;
 
-        if (node && bfdev_ilog2(offset) < radix_depth_shift(level))
+        if (node && radix_depth_contain(level, offset))
             break;
 
         successor = bfdev_zalloc(alloc, sizeof(*successor));
@@ -178,7 +187,7 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
     unsigned int level, index;
@@ -377,7 +386,7 @@ bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -432,7 +441,7 @@ finish:
 export void *
 bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
-- 
2.43.0


From a880f12b928124eb968864291b210a5febdac669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 053/106] fix: radix: report freeing an absent element of a
 present block

---
 src/radix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radix.c b/src/radix.c
index f16e202..9e2cfb5 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -200,6 +200,10 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
     node = parents[0].node;
     index = parents[0].index;
 
+    contain = bfdev_bit_test(node->bitmap, index);
+    if (bfdev_unlikely(!contain))
+        return -BFDEV_ENOENT;
+
     bfdev_bit_clr(node->bitmap, index);
     if (!bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
         return -BFDEV_ENOERR;
-- 
2.43.0


From 24158824db8f484a461d6e91d721b20dbdad9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 054/106] fix: radix: skip empty branches and restart the lower
 digits when walking

---
 src/radix.c | 186 +++++++++++++++++++++++++---------------------------
 1 file changed, 91 insertions(+), 95 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index 9e2cfb5..f8bcca1 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -286,105 +286,105 @@ bfdev_radix_root_release(bfdev_radix_root_t *root)
     root->node = NULL;
 }
 
-static inline bfdev_radix_node_t *
+static void *
 radix_left_most(bfdev_radix_node_t *node, unsigned int level,
-                uintptr_t *offset)
+                uintptr_t *offsetp)
 {
     unsigned int walk;
+    uintptr_t offset;
+    void *block;
 
-    while (level--) {
-        for (walk = 0; walk < BFDEV_RADIX_ARY; ++walk) {
-            if (!node->child[walk])
-                continue;
+    if (!level) {
+        walk = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
+        if (walk == BFDEV_RADIX_BLOCK)
+            return NULL;
 
-            node = node->child[walk];
-            *offset |= (uintptr_t)walk << radix_depth_shift(level);
-            break;
-        }
+        *offsetp |= walk;
+        return &node->block[walk];
+    }
 
-        if (walk == BFDEV_RADIX_ARY)
-            return NULL;
+    /* The leftmost branch is never pruned, so it may be empty */
+    level--;
+    for (walk = 0; walk < BFDEV_RADIX_ARY; ++walk) {
+        if (!node->child[walk])
+            continue;
+
+        offset = *offsetp | (uintptr_t)walk << radix_depth_shift(level);
+        block = radix_left_most(node->child[walk], level, &offset);
+        if (block) {
+            *offsetp = offset;
+            return block;
+        }
     }
 
-    return node;
+    return NULL;
 }
 
-static inline bfdev_radix_node_t *
+static void *
 radix_right_most(bfdev_radix_node_t *node, unsigned int level,
-                 uintptr_t *offset)
+                 uintptr_t *offsetp)
 {
     unsigned int walk;
+    uintptr_t offset;
+    void *block;
 
-    while (level--) {
-        walk = BFDEV_RADIX_ARY;
-        while (walk--) {
-            if (!node->child[walk])
-                continue;
+    if (!level) {
+        walk = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
+        if (walk == BFDEV_RADIX_BLOCK)
+            return NULL;
 
-            node = node->child[walk];
-            *offset |= (uintptr_t)walk << radix_depth_shift(level);
-            break;
-        }
+        *offsetp |= walk;
+        return &node->block[walk];
+    }
 
-        if (walk > BFDEV_RADIX_ARY)
-            return NULL;
+    level--;
+    for (walk = BFDEV_RADIX_ARY; walk--;) {
+        if (!node->child[walk])
+            continue;
+
+        offset = *offsetp | (uintptr_t)walk << radix_depth_shift(level);
+        block = radix_right_most(node->child[walk], level, &offset);
+        if (block) {
+            *offsetp = offset;
+            return block;
+        }
     }
 
-    return node;
+    return NULL;
 }
 
 export void *
 bfdev_radix_root_first(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    unsigned int count, level;
-    bfdev_radix_node_t *node;
     uintptr_t offset;
+    void *block;
 
-    node = root->node;
-    level = root->level;
-
-    if (!node)
+    if (!root->node)
         return NULL;
 
     offset = 0;
-    node = radix_left_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
+    block = radix_left_most(root->node, root->level, &offset);
+    if (block)
+        *offsetp = offset;
 
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
-        return NULL;
-
-    offset |= count;
-    *offsetp = offset;
-
-    return &node->block[count];
+    return block;
 }
 
 export void *
 bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    unsigned int count, level;
-    bfdev_radix_node_t *node;
     uintptr_t offset;
+    void *block;
 
-    node = root->node;
-    level = root->level;
-
-    if (!node)
+    if (!root->node)
         return NULL;
 
     offset = 0;
-    node = radix_right_most(node, level, &offset);
-    BFDEV_BUG_ON(!node);
-
-    count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-    if (count == BFDEV_RADIX_BLOCK)
-        return NULL;
-
-    offset |= count;
-    *offsetp = offset;
+    block = radix_right_most(root->node, root->level, &offset);
+    if (block)
+        *offsetp = offset;
 
-    return &node->block[count];
+    return block;
 }
 
 export void *
@@ -393,6 +393,8 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
+    uintptr_t offset;
+    void *block;
     bool contain;
 
     contain = radix_parent(root, *offsetp, parents);
@@ -408,8 +410,11 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
         return NULL;
 
     count = bfdev_find_next_bit(node->bitmap, BFDEV_RADIX_BLOCK, index + 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
+    if (count < BFDEV_RADIX_BLOCK) {
+        *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+        *offsetp |= count;
+        return &node->block[count];
+    }
 
     for (level = 1; level <= root->level; ++level) {
         node = parents[level].node;
@@ -420,26 +425,19 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
+            offset = *offsetp & ~BFDEV_BIT_LOW_MASK(count);
+            offset &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            offset |= (uintptr_t)index << count;
+
+            block = radix_left_most(node->child[index], level - 1, &offset);
+            if (block) {
+                *offsetp = offset;
+                return block;
+            }
         }
     }
 
     return NULL;
-
-downward:
-    node = radix_left_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_first_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
 }
 
 export void *
@@ -448,6 +446,8 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
     struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
+    uintptr_t offset;
+    void *block;
     bool contain;
 
     contain = radix_parent(root, *offsetp, parents);
@@ -463,8 +463,11 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
         return NULL;
 
     count = bfdev_find_prev_bit(node->bitmap, BFDEV_RADIX_BLOCK, index - 1);
-    if (count < BFDEV_RADIX_BLOCK)
-        goto finish;
+    if (count < BFDEV_RADIX_BLOCK) {
+        *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
+        *offsetp |= count;
+        return &node->block[count];
+    }
 
     for (level = 1; level <= root->level; ++level) {
         node = parents[level].node;
@@ -475,24 +478,17 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
-            *offsetp |= (uintptr_t)index << count;
-
-            node = node->child[index];
-            goto downward;
+            offset = *offsetp & ~BFDEV_BIT_LOW_MASK(count);
+            offset &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            offset |= (uintptr_t)index << count;
+
+            block = radix_right_most(node->child[index], level - 1, &offset);
+            if (block) {
+                *offsetp = offset;
+                return block;
+            }
         }
     }
 
     return NULL;
-
-downward:
-    node = radix_right_most(node, level - 1, offsetp);
-    BFDEV_BUG_ON(!node);
-    count = bfdev_find_last_bit(node->bitmap, BFDEV_RADIX_BLOCK);
-
-finish:
-    *offsetp &= ~(uintptr_t)RADIX_BLOCK_MASK;
-    *offsetp |= count;
-
-    return &node->block[count];
 }
-- 
2.43.0


From 2406c484b55c91334b699c732f067f56ec7c0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 055/106] fix: radix: index of an offset for sizes that are no
 power of two

---
 include/bfdev/radix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 2165537..4277664 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -90,8 +90,8 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
     /* object per block */
     num = BFDEV_RADIX_BLOCK / cells;
-    return (offset / num) / BFDEV_RADIX_BLOCK +
-           (offset % num) / cells;
+    return (offset / BFDEV_RADIX_BLOCK) * num +
+           (offset % BFDEV_RADIX_BLOCK) / cells;
 }
 
 #define bfdev_radix_cast(radix) \
-- 
2.43.0


From f23c7d24f426f454e9f9e579789f7000327ea214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 056/106] fix: radix: no index from an undefined offset when
 the array is empty

---
 include/bfdev/radix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 4277664..26300c5 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -151,7 +151,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
 #define bfdev_radix_first(radix, index) ({              \
     bfdev_radix_root_t *__root;                         \
-    uintptr_t __off;                                    \
+    uintptr_t __off = 0;                                \
     void *__retval;                                     \
     __root = &(radix)->tree;                            \
     __retval = bfdev_radix_root_first(__root, &__off);  \
@@ -161,7 +161,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
 #define bfdev_radix_last(radix, index) ({               \
     bfdev_radix_root_t *__root;                         \
-    uintptr_t __off;                                    \
+    uintptr_t __off = 0;                                \
     void *__retval;                                     \
     __root = &(radix)->tree;                            \
     __retval = bfdev_radix_root_last(__root, &__off);   \
-- 
2.43.0


From 322f3be751b43ffef6bb840f73d79456ead12fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 057/106] fix: radix: make for_each_continue_safe compile

---
 include/bfdev/radix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 26300c5..9438c67 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -237,7 +237,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
-         (tval) = bfdev_radix_next(radix, tidx)))
+         ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-- 
2.43.0


From 6e51c507c5d2b13055a9a29558d1a85110989788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 058/106] fix: bloom: flush the whole bitmap

---
 src/bloom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..458f480 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,7 +57,7 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
+    size = BFDEV_BITS_DIV_LONG(bloom->capacity) * sizeof(*bloom->bitmap);
     bfport_memset(bloom->bitmap, 0, size);
 }
 
-- 
2.43.0


From cc436c3f6fb4100a1b1f8c6a8448792a1725c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 059/106] fix: bloom: refuse a capacity of zero or one that
 wraps to zero

---
 src/bloom.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bloom.c b/src/bloom.c
index 458f480..9bb2b13 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -69,6 +69,9 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
     size_t size;
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
+    if (bfdev_unlikely(!capacity))
+        return NULL;
+
     size = BFDEV_BITS_DIV_LONG(capacity);
 
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
-- 
2.43.0


From 686b153f364a6f8973270c557117ec6bfcce8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 060/106] fix: cache: reset the state of every element and the
 change counter

---
 src/cache/cache.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..67f2b50 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -283,6 +283,7 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
     head->flags = 0;
     head->pending = 0;
     head->used = 0;
+    head->changed = 0;
     head->hits = 0;
     head->misses = 0;
     head->starve = 0;
@@ -296,6 +297,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From 9bbe08adf05787abff5c23cfe8ff96bda4262b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 061/106] fix: memalloc: refuse sizes that wrap when they are
 aligned

---
 src/memalloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..0f32425 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,6 +129,9 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
+    if (bfdev_unlikely(size > head->avail))
+        return NULL;
+
     bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
-- 
2.43.0


From c0e42b3d0d0c8f37a9a6a043c0a3cb313299a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 062/106] fix: memalloc: reallocation within the block or its
 neighbour needs no other free space

---
 src/memalloc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 0f32425..d6c8d44 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -177,14 +177,16 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    /* The next node gives its size and its header at most */
+    if (bfdev_unlikely(resize - origin > head->avail + sizeof(*node)))
+        return NULL;
+
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
+
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From c900fe3ba39e5166bed61232559b9109492c6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 063/106] fix: memalloc: free space of a region of odd size

---
 src/memalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index d6c8d44..c5579db 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -290,7 +290,7 @@ bfdev_memalloc_init(bfdev_memalloc_head_t *head, bfdev_memalloc_find_t find,
 
     node = array;
     pnode_set(node, size - sizeof(*node), false);
-    head->avail = size - sizeof(*node);
+    head->avail = pnode_get_size(node);
 
     bfdev_list_add(&head->block_list, &node->block);
     bfdev_list_add(&head->free_list, &node->free);
-- 
2.43.0


From 78ec82e9e47cd468f44cc564110436fb3f4ad6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 064/106] fix: allocpool: refuse sizes and alignments that wrap
 around

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 5c526c93c863161cc11fef91cf46e8c716c1fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 065/106] fix: respool: unlink the resources released all
 together

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From cdf64bcd78fbdb3c49b12eac0acaa2c60515b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 066/106] fix: ascii85: do not read beyond a partial last group

---
 src/crypto/ascii85.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..ba31401 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -35,8 +35,14 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        const uint8_t *bytes = data;
+        unsigned int count;
+
+        for (value = count = 0; count < BFDEV_BYTES_PER_U32; ++count) {
+            value <<= BFDEV_BITS_PER_BYTE;
+            if (count < size)
+                value |= bytes[count];
+        }
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From 4fd498b215398a71dfe9ffdd0e894c96d91c9601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 067/106] fix: ascii85: decode the short form as a group of its
 own

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index ba31401..6597ff7 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -73,6 +73,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 0587cbc181d738132652415cc8c934e88d78bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 068/106] fix: crc: fold the upper half of 64-bit checksums
 into the slicing step

---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From 7e45a6dc7d26b87d93633c0aa3c0ad8b8c5b27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 069/106] fix: stringhash: hash the bytes of the string as
 unsigned

---
 src/stringhash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 63b7d87..471f425 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -4,6 +4,7 @@
  */
 
 #include <bfdev/stringhash.h>
+#include <bfdev/types.h>
 #include <export.h>
 
 export unsigned long
@@ -14,7 +15,7 @@ bfdev_pjwhash(const char *str)
     hash = 0;
     while (*str) {
         hash <<= 4;
-        hash += *str++;
+        hash += (uint8_t)*str++;
 
         value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
-- 
2.43.0


From b8ef30df274b5a04074aca336e8ed9b766ecd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 070/106] fix: stringhash: keep the hash within its 32 bits

---
 src/stringhash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 471f425..89e52ec 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -10,14 +10,14 @@
 export unsigned long
 bfdev_pjwhash(const char *str)
 {
-    unsigned long value, hash;
+    uint32_t value, hash;
 
     hash = 0;
     while (*str) {
         hash <<= 4;
         hash += (uint8_t)*str++;
 
-        value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
+        value = hash & (0xfU << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
             hash ^= value >> (BFDEV_PJWHASH_BITS - 8);
             hash ^= value;
-- 
2.43.0


From 99c302401c704fa1c66cb7247749fa98ce4c405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 071/106] fix: textsearch: index the good suffix table by the
 matched length in bm

---
 src/textsearch/bm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..caedaa4 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -85,7 +85,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -118,7 +118,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
-- 
2.43.0


From 40141e5fbb496fb11629a34412140e8f2991839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 072/106] fix: textsearch: cover all byte values with the bm
 shift table

---
 src/textsearch/bm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index caedaa4..bae5837 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -100,7 +100,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
-- 
2.43.0


From d1e55f480b8c9a0193e9711c247d6aa0aef3df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 073/106] fix: textsearch: cover all byte values with the
 sunday shift table

---
 src/textsearch/sunday.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..eb5af04 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -81,7 +81,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
-- 
2.43.0


From b1a334f3b84501caf1677a106aa27a3d4264f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 074/106] fix: textsearch: do not read beyond the text in
 sunday

---
 src/textsearch/sunday.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index eb5af04..2430725 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -64,7 +64,7 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
             if (index == sctx->pattern_len)
                 return consumed + shift;
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
-- 
2.43.0


From 1f04d934c43bd5d4d5f4b385bfcba6e9b6cd9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 075/106] fix: textsearch: continue after the match in bm and
 sunday

---
 src/textsearch/bm.c     | 6 ++++--
 src/textsearch/sunday.c | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index bae5837..f22e13c 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -63,8 +63,10 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 2430725..d10fac4 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -61,8 +61,10 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
             if (sctx->pattern_len + shift >= length)
                 break;
-- 
2.43.0


From 8bbf8a092a4d0edb96b6db45c3fdb69854c29784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 076/106] fix: textsearch: compare unsigned bytes in kmp

---
 src/textsearch/kmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ccb21f5 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
@@ -109,7 +109,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&kctx->tsc))
         bfport_memcpy(kctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        kctx->pattern[index] = toupper(((char *)pattern)[index]);
+        kctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     kmp_compute_prefix(kctx);
 
     return &kctx->tsc;
-- 
2.43.0


From c637153e43d49ff15b51159fdf42de8ae67b8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 077/106] fix: textsearch: fold the pattern as unsigned bytes
 in bm and sunday

---
 src/textsearch/bm.c     | 2 +-
 src/textsearch/sunday.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index f22e13c..07a26f5 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -146,7 +146,7 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&bctx->tsc))
         bfport_memcpy(bctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        bctx->pattern[index] = toupper(((char *)pattern)[index]);
+        bctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     bm_compute_prefix(bctx);
 
     return &bctx->tsc;
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index d10fac4..af08f67 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -112,7 +112,7 @@ sunday_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&sctx->tsc))
         bfport_memcpy(sctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        sctx->pattern[index] = toupper(((char *)pattern)[index]);
+        sctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     sunday_compute_prefix(sctx);
 
     return &sctx->tsc;
-- 
2.43.0


From d66f7908bb4ee1db47ba1dd50b49f66b5c3ac223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 078/106] fix: levenshtein: initialise the whole first row

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 860fc20d69c969057b349bb55d58170d21faee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 079/106] fix: scnprintf: store nothing when the text cannot be
 formatted

---
 src/scnprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..2dd439f 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,6 +16,11 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
+    if (bfdev_unlikely(len < 0)) {
+        *buf = '\0';
+        return 0;
+    }
+
     if (bfdev_likely(len < size))
         return len;
 
-- 
2.43.0


From 1d11c086c587b65850df95c32fcd891ebeb55c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 080/106] fix: strndup: copy and terminate exactly the bounded
 text

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From 11d7d9cbd227d8cf2f64c26612f495c78b1547d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 081/106] fix: ctype: classify '0' as a hexadecimal digit

---
 src/libc/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..222b450 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From 702641167100f5055242d4e78d5e1134795f80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 082/106] fix: ctype: classify the horizontal tabulator as
 blank

---
 src/libc/ctype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index 222b450..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-- 
2.43.0


From afea433ce5ef949671655261ec61033de2c4181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 083/106] fix: ctype: give the constant isascii its expected
 name

---
 include/bfdev/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..d663134 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -111,7 +111,7 @@ int bfdev_isxdigit_const(int c)
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
-- 
2.43.0


From acf7b2298d673060dd073b8bbb1d79c6bd581562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 084/106] fix: ctype: compare the distances of constant
 characters unsigned

---
 include/bfdev/ctype.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index d663134..4358d67 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32U) - 'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned char)c - (unsigned int)'0') < 10;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned char)c - 0x21U) < 0x5e;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned char)c - (unsigned int)'a') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned char)c - 0x20U) < 0x5f;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned char)c - (unsigned int)'\t' < 5);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned char)c - (unsigned int)'A') < 26;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,7 +107,7 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32U) - 'a' < 6);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-- 
2.43.0


From bb3bef6fbe4359db3bce326095ab7679c3afc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 085/106] fix: fsm: report the change made by a cross
 transition

---
 src/fsm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fsm.c b/src/fsm.c
index 2ed6531..af1c3e1 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -57,7 +57,9 @@ export int
 bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
 {
     const bfdev_fsm_state_t *curr, *next;
+    int result;
 
+    result = BFDEV_FSM_NOCHANGE;
     curr = bfdev_fsm_curr(fsm);
     if (bfdev_unlikely(!curr))
         return -BFDEV_EINVAL;
@@ -168,11 +170,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
          * If it is declared as crossing, Immediately
          * change to the next state.
          */
-        if (tran->cross)
+        if (tran->cross) {
+            result = BFDEV_FSM_CHANGED;
             continue;
+        }
 
         return BFDEV_FSM_CHANGED;
     }
 
-    return BFDEV_FSM_NOCHANGE;
+    return result;
 }
-- 
2.43.0


From b611fc98d0c3470fc3c98b1846ec94a5fca6ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 086/106] fix: fsm: forget the previous state on reset

---
 include/bfdev/fsm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/fsm.h b/include/bfdev/fsm.h
index ff85286..33a0ec8 100644
--- a/include/bfdev/fsm.h
+++ b/include/bfdev/fsm.h
@@ -111,7 +111,8 @@ bfdev_fsm_init(bfdev_fsm_t *fsm, const bfdev_alloc_t *alloc,
 static inline void
 bfdev_fsm_reset(bfdev_fsm_t *fsm, const bfdev_fsm_state_t *init)
 {
-    *fsm->state = init;
+    fsm->state[0] = init;
+    fsm->state[1] = NULL;
     fsm->count = 0;
     bfdev_array_reset(&fsm->stack);
 }
-- 
2.43.0


From be5301d44a83c4c12a8009c85acc7e8de261b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 087/106] fix: fsm: allocate the stack entry before leaving the
 state

---
 src/fsm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fsm.c b/src/fsm.c
index af1c3e1..29ccfae 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -110,6 +110,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
         while (next->entry)
             next = next->entry;
 
+        /* Make sure the later push onto the stack cannot fail */
+        if (tran->stack > 0) {
+            retval = bfdev_array_reserve(&fsm->stack, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+        }
+
         /*
          * Call the curr state's exit action, if state
          * does not return to itself and the stack
-- 
2.43.0


From 7a868e73ac44895f317eeb80aeb4901f13956cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 088/106] fix: refcount: repeat the conditional add only when
 the exchange failed

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..04d66c5 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
-- 
2.43.0


From 0b5ec98df98d444f1a9fe9fa086e03d76631c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 089/106] fix: refcount: the conditional add reported an
 overflow for every surplus

---
 include/bfdev/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index 04d66c5..c6683f6 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev + nr < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 145d897ac0bf6cee33d54b6160613ad18e1b3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 090/106] fix: ratelimit: the end of a long interval overflowed

---
 src/ratelimit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index 6908623..1a3ac21 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -19,7 +19,7 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (bfdev_unlikely(!limit->begin))
         limit->begin = current;
 
-    if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
+    if (bfdev_time_after(bfdev_time_sub(current, limit->begin), limit->interval)) {
         limit->begin = current;
         limit->passed = 0;
     }
-- 
2.43.0


From 56d87be26c4e991c91a8cdb0dc8a44c1fcf6ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 091/106] fix: ratelimit: an interval that begins at time zero
 was extended

---
 src/ratelimit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index 1a3ac21..159594b 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -16,7 +16,7 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->begin))
+    if (bfdev_unlikely(!limit->begin && !limit->passed && !limit->missed))
         limit->begin = current;
 
     if (bfdev_time_after(bfdev_time_sub(current, limit->begin), limit->interval)) {
-- 
2.43.0


From a82c977e4c89b0863bba2d9344e547e6397d0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 092/106] fix: tokenbucket: the bucket was refilled by every
 request at time zero

---
 src/tokenbucket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..511f86d 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -16,7 +16,7 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->last)) {
+    if (bfdev_unlikely(!limit->last && !limit->passed && !limit->missed)) {
         limit->current = limit->capacity;
         limit->last = current;
     }
-- 
2.43.0


From d6fd54d9e39972bda35163b3dc8cdb5b5b9cb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 093/106] fix: tokenbucket: tokens were lost after a long idle
 time or in a large bucket

---
 src/tokenbucket.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 511f86d..898bab3 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate, stored;
 
     if (!limit->interval)
         return true;
@@ -24,7 +24,8 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    stored = limit->current + bfdev_clamp(generate, 0, limit->capacity);
+    limit->current = bfdev_min(stored, limit->capacity);
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From ea84f8bfb3afc036adc69f4f57baff9280428ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 094/106] fix: log: bfdev_log_level dereferenced an absent end
 pointer and skipped an unset one

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..203e1e6 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -79,7 +79,7 @@ bfdev_log_level(const char *str, const char **endptr)
         }
     }
 
-    if (*endptr)
+    if (endptr)
         *endptr = str;
 
     return level;
-- 
2.43.0


From 33ab704da526631bcf451e05de53b3391f1768fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 095/106] fix: size: the GiB constants were a quarter of their
 names

---
 include/bfdev/size.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/bfdev/size.h b/include/bfdev/size.h
index f32496d..a3f262c 100644
--- a/include/bfdev/size.h
+++ b/include/bfdev/size.h
@@ -44,16 +44,16 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_SZ_256MiB     0x10000000
 #define BFDEV_SZ_512MiB     0x20000000
 
-#define BFDEV_SZ_1GiB       BFDEV_AC(0x0010000000, ULL)
-#define BFDEV_SZ_2GiB       BFDEV_AC(0x0020000000, ULL)
-#define BFDEV_SZ_4GiB       BFDEV_AC(0x0040000000, ULL)
-#define BFDEV_SZ_8GiB       BFDEV_AC(0x0080000000, ULL)
-#define BFDEV_SZ_16GiB      BFDEV_AC(0x0100000000, ULL)
-#define BFDEV_SZ_32GiB      BFDEV_AC(0x0200000000, ULL)
-#define BFDEV_SZ_64GiB      BFDEV_AC(0x0400000000, ULL)
-#define BFDEV_SZ_128GiB     BFDEV_AC(0x0800000000, ULL)
-#define BFDEV_SZ_256GiB     BFDEV_AC(0x1000000000, ULL)
-#define BFDEV_SZ_512GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_1GiB       BFDEV_AC(0x0040000000, ULL)
+#define BFDEV_SZ_2GiB       BFDEV_AC(0x0080000000, ULL)
+#define BFDEV_SZ_4GiB       BFDEV_AC(0x0100000000, ULL)
+#define BFDEV_SZ_8GiB       BFDEV_AC(0x0200000000, ULL)
+#define BFDEV_SZ_16GiB      BFDEV_AC(0x0400000000, ULL)
+#define BFDEV_SZ_32GiB      BFDEV_AC(0x0800000000, ULL)
+#define BFDEV_SZ_64GiB      BFDEV_AC(0x1000000000, ULL)
+#define BFDEV_SZ_128GiB     BFDEV_AC(0x2000000000, ULL)
+#define BFDEV_SZ_256GiB     BFDEV_AC(0x4000000000, ULL)
+#define BFDEV_SZ_512GiB     BFDEV_AC(0x8000000000, ULL)
 
 BFDEV_END_DECLS
 
-- 
2.43.0


From a98209c722614f202c8b599d1f99939a80189d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 096/106] fix: mhelper: ARGN and DECLN named macros that do not
 exist

---
 include/bfdev/mhelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/mhelper.h b/include/bfdev/mhelper.h
index afc1b86..5c451af 100644
--- a/include/bfdev/mhelper.h
+++ b/include/bfdev/mhelper.h
@@ -26,7 +26,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_ARG4(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG5(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_ARG6(fn, type, arg, ...) fn(type, arg), BFDEV_MMAP_ARG5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_ARGN(n, fn, ...) MMAP_ARG##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_ARGN(n, fn, ...) BFDEV_MMAP_ARG##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MMAP_DECL0(fn, ...)
 #define BFDEV_MMAP_DECL1(fn, type, ...) fn(type, __arg1)
@@ -35,7 +35,7 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_MMAP_DECL4(fn, type, ...) fn(type, __arg4), BFDEV_MMAP_DECL3(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL5(fn, type, ...) fn(type, __arg5), BFDEV_MMAP_DECL4(fn, ##__VA_ARGS__)
 #define BFDEV_MMAP_DECL6(fn, type, ...) fn(type, __arg6), BFDEV_MMAP_DECL5(fn, ##__VA_ARGS__)
-#define BFDEV_MMAP_DECLN(n, fn, ...) MMAP_DECL##n(fn, ##__VA_ARGS__)
+#define BFDEV_MMAP_DECLN(n, fn, ...) BFDEV_MMAP_DECL##n(fn, ##__VA_ARGS__)
 
 #define BFDEV_MARGFN_DECL(type, arg) type arg
 #define BFDEV_MARGFN_LONG(type, arg) long arg
-- 
2.43.0


From 26bb948b52510ba2df196c2bc75c03bcc0c52135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 097/106] fix: refcount: overflow checks relied on signed
 overflow

---
 include/bfdev/refcount.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index c6683f6..879c017 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -74,7 +74,7 @@ bfdev_refcnt_fetch_add(bfdev_refcnt_t *ref, bfdev_atomic_t cnt,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_LEAK);
-    else if (bfdev_unlikely(prev + cnt < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + cnt) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_OVF);
 #endif
 }
@@ -97,7 +97,7 @@ bfdev_refcnt_fetch_sub_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_SUB_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_SUB_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev - nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_SUB_OVF);
 #endif
 
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, (uintptr_t)prev + nr));
 
     if (oldp)
         *oldp = prev;
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev + nr < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 9c1252d2d3baaed3319bebb8562e119ddd0a516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 098/106] fix: radix: safe iteration from or after an element
 used an unset cursor

---
 include/bfdev/radix.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 9438c67..dab1698 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -226,22 +226,26 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
          ((tval) = bfdev_radix_prev(radix, tidx))))
 
 #define bfdev_radix_for_each_form_safe(value, radix, index, tval, tidx) \
-    for (; value; (void)((*(index) = *(tidx), (value) = (tval)) && \
+    for (*(tidx) = *(index), \
+         (tval) = (value) ? bfdev_radix_next(radix, tidx) : NULL; \
+         value; (void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_form_safe(value, radix, index, tval, tidx) \
-    for (; value; (void)((*(index) = *(tidx), (value) = (tval)) && \
+    for (*(tidx) = *(index), \
+         (tval) = (value) ? bfdev_radix_prev(radix, tidx) : NULL; \
+         value; (void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_prev(radix, tidx))))
 
 #define bfdev_radix_for_each_continue_safe(value, radix, index, tval, tidx) \
-    for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-         ((tval) = bfdev_radix_next(radix, tidx))); value; \
+    for ((void)(((value) = bfdev_radix_next(radix, index)) && \
+         (*(tidx) = *(index), (tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
-    for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-         ((tval) = bfdev_radix_prev(radix, tidx))); value; \
+    for ((void)(((value) = bfdev_radix_prev(radix, index)) && \
+         (*(tidx) = *(index), (tval) = bfdev_radix_prev(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_prev(radix, tidx))))
 
-- 
2.43.0


From 7bf00d6834b27f02160019d3f0e0e55f03d4600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 099/106] fix: ilist: refuse a list whose index is broken

---
 src/ilist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ilist.c b/src/ilist.c
index 6b6ef89..83ed502 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -60,7 +60,7 @@ ilist_head_check(bfdev_ilist_head_t *ihead)
 
     success = ilist_list_check(&ihead->node_list);
     if (success && !bfdev_ilist_head_empty(ihead))
-        ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
+        success = ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
 
     return success;
 }
-- 
2.43.0


From 1bcfae6db8c80872c062cf1770e03203904b1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 100/106] fix: radix: charge the last block of a range that
 starts inside a block

---
 src/radix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/radix.c b/src/radix.c
index f8bcca1..6979c00 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -250,7 +250,10 @@ bfdev_radix_root_charge(bfdev_radix_root_t *root,
         if (!bfdev_radix_root_alloc(root, offset))
             return -BFDEV_ENOMEM;
 
-        offset += BFDEV_RADIX_BLOCK;
+        /* Next block, the first may be entered midway */
+        offset |= RADIX_BLOCK_MASK;
+        if (bfdev_unlikely(!++offset))
+            break;
     }
 
     return -BFDEV_ENOERR;
-- 
2.43.0


From d120dab07432c23a3e60953d443e4cfae2b2137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 101/106] fix: errname: do not negate the most negative number
 as a signed one

---
 src/errname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errname.c b/src/errname.c
index 79a8bce..00f3e75 100644
--- a/src/errname.c
+++ b/src/errname.c
@@ -150,7 +150,7 @@ bfdev_errname_find(int error)
     bfdev_errname_t *entry;
 
     if (error < 0)
-        error = -error;
+        error = -(unsigned int)error;
 
     entry = bfdev_bsearch(
         bfdev_errname_table, BFDEV_ARRAY_SIZE(bfdev_errname_table) - 1,
-- 
2.43.0


From 1d15ee0b2cf3ada3d5eb87ee69c4983a84a9b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 102/106] fix: bitmap: do not lose the length of maps near the
 limit of unsigned int

The word count was computed in 32 bits: rounding a length above 2^32-64 up
wrapped to zero, so clearing, filling, copying, shifting and allocating such
a map did nothing.
---
 include/bfdev/bitmap.h | 6 +++---
 src/bitmap.c           | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 0ab9126..d55567f 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -236,7 +236,7 @@ bfdev_bitmap_zero(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((uint64_t)bits);
     bfport_memset(bitmap, 0, length);
 }
 
@@ -250,7 +250,7 @@ bfdev_bitmap_fill(unsigned long *bitmap, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((uint64_t)bits);
     bfport_memset(bitmap, BFDEV_UINT8_MAX, length);
 }
 
@@ -264,7 +264,7 @@ bfdev_bitmap_copy(unsigned long *dest, unsigned long *src, unsigned int bits)
         return;
     }
 
-    length = BFDEV_BITS_TO_U8(bits);
+    length = BFDEV_BITS_TO_U8((uint64_t)bits);
     bfport_memcpy(dest, src, length);
 }
 
diff --git a/src/bitmap.c b/src/bitmap.c
index 829a478..5a6cb4e 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -164,7 +164,7 @@ bfdev_bitmap_comp_shl(unsigned long *dest, const unsigned long *src,
     unsigned int length, offset, rem, index;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((uint64_t)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -211,7 +211,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
     unsigned int index, length, offset, rem;
     unsigned long value, vlow, vhigh;
 
-    length = BFDEV_BITS_TO_LONG(bits);
+    length = BFDEV_BITS_TO_LONG((uint64_t)bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
 
     if (length <= offset) {
@@ -335,7 +335,7 @@ export unsigned long *
 bfdev_bitmap_alloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_malloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((uint64_t)bits), sizeof(unsigned long)
     );
 }
 
@@ -343,7 +343,7 @@ export unsigned long *
 bfdev_bitmap_zalloc(const bfdev_alloc_t *alloc, unsigned int bits)
 {
     return bfdev_zalloc_array(
-        alloc, BFDEV_BITS_TO_LONG(bits), sizeof(unsigned long)
+        alloc, BFDEV_BITS_TO_LONG((uint64_t)bits), sizeof(unsigned long)
     );
 }
 
-- 
2.43.0


From 5cc4340cd4782e5bc3b44f3ef6c732960f0af0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 103/106] fix: bitwalk: do not wrap around at the end of the
 largest maps

Advancing the position past a length above 2^32-64 wrapped to zero, so a
search went on behind the map or started over.
---
 src/bitwalk.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bitwalk.c b/src/bitwalk.c
index 78466e1..9cdebd9 100644
--- a/src/bitwalk.c
+++ b/src/bitwalk.c
@@ -23,6 +23,8 @@ bfdev_comp_find_first_bit(const unsigned long *block, unsigned int bits,
         value ^= invert;
 
         if (value == BFDEV_ULONG_MIN) {
+            if (bits - base <= BFDEV_BITS_PER_LONG)
+                break;
             block++;
             continue;
         }
@@ -94,9 +96,9 @@ bfdev_comp_find_next_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start += BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (bits - start <= BFDEV_BITS_PER_LONG)
             return bits;
+        start += BFDEV_BITS_PER_LONG;
 
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
@@ -133,9 +135,9 @@ bfdev_comp_find_prev_bit(const unsigned long *addr1, const unsigned long *addr2,
     start = bfdev_round_down(start, BFDEV_BITS_PER_LONG);
 
     while (!value) {
-        start -= BFDEV_BITS_PER_LONG;
-        if (start >= bits)
+        if (start < BFDEV_BITS_PER_LONG)
             return bits;
+        start -= BFDEV_BITS_PER_LONG;
 
         value = addr1[BFDEV_BITS_DIV_LONG(start)];
         if (addr2)
-- 
2.43.0


From 10b4087188935ffeec03c4998bf09d1eade42639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 104/106] fix: argv: compute the table size of very long
 vectors in size_t

The size of the word table was kept in an unsigned int, with 2^29 words it
wrapped and the words were written over a block far too small.
---
 src/argv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/argv.c b/src/argv.c
index e22fb53..05dab8d 100644
--- a/src/argv.c
+++ b/src/argv.c
@@ -38,15 +38,16 @@ bfdev_argv_split(const bfdev_alloc_t *alloc, const char *args,
 {
     unsigned int count, argc;
     char *block, **argv;
+    size_t size;
 
     argc = bfdev_argv_count(args);
-    count = (argc + 1) * sizeof(*argv);
+    size = (argc + (size_t)1) * sizeof(*argv);
 
-    argv = bfdev_malloc(alloc, count + bfport_strlen(args) + 1);
+    argv = bfdev_malloc(alloc, size + bfport_strlen(args) + 1);
     if (bfdev_unlikely(!argv))
         return NULL;
 
-    block = (void *)argv + count;
+    block = (void *)argv + size;
     bfport_strcpy(block, args);
 
     for (count = 0; count < argc; ++count) {
-- 
2.43.0


From 192fef452e3a47efa66de400e9f6af4c02564dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 105/106] fix: textsearch: compute table sizes and positions of
 kmp and bm in size_t

The size of the prefix table of a pattern of 2^30 bytes wrapped, and so did
the position of bm in a text that ends near 4 GiB.
---
 src/textsearch/bm.c  | 7 ++++---
 src/textsearch/kmp.c | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 07a26f5..6e1eb30 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -42,8 +42,8 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
 {
     #define find_pattern() (icase ? toupper(text[shift - index]) : text[shift - index])
     struct bm_context *bctx;
-    unsigned int bad_shift, good_shift, consumed;
-    unsigned int length, index, shift;
+    unsigned int consumed, length, index;
+    size_t bad_shift, good_shift, shift;
     const uint8_t *text;
     bool icase;
 
@@ -132,7 +132,8 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
            size_t len, unsigned long flags)
 {
     struct bm_context *bctx;
-    unsigned int gsize, index;
+    unsigned int index;
+    size_t gsize;
 
     gsize = sizeof(unsigned int) * len;
     bctx = bfdev_malloc(alloc, sizeof(*bctx) + gsize + len);
diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index ccb21f5..754efee 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -95,7 +95,8 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
             size_t len, unsigned long flags)
 {
     struct kmp_context *kctx;
-    unsigned int prefix_size, index;
+    unsigned int index;
+    size_t prefix_size;
 
     prefix_size = sizeof(unsigned int) * len;
     kctx = bfdev_zalloc(alloc, sizeof(*kctx) + prefix_size + len);
-- 
2.43.0


From c4e6d399bc428692b9217774ff28b6daa135ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 106/106] fix: textsearch: keep the position of sunday in
 size_t

In a text that ends near 4 GiB the position wrapped around.
---
 src/textsearch/sunday.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index af08f67..8c87270 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -41,7 +41,8 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
 {
     #define find_pattern() (icase ? toupper(text[shift + index]) : text[shift + index])
     struct sunday_context *sctx;
-    unsigned int consumed, length, index, shift;
+    unsigned int consumed, length, index;
+    size_t shift;
     const uint8_t *text;
     bool icase;
 
-- 
2.43.0

